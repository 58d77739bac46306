CONSTANTS
 MaxOps = 4
 MaxObjs = 4
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
