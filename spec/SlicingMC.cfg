CONSTANTS N = 6
 MaxDepth = 3
 Lim = 8
 MaxStep = 4
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
