CONSTANTS P = 7
 MaxLen = 6
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
