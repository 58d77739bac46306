CONSTANTS N = 8
 MaxDepth = 4
 Lim = 10
 MaxStep = 4
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
