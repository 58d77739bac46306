CONSTANTS MaxN = 4
          MaxF = 3
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
