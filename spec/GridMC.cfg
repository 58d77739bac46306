CONSTANTS KMax = 9
 XMax = 13
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
