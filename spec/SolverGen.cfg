CONSTANTS
 Q = {1, 2, 3}
 K = 4
 MaxLen = 18
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
