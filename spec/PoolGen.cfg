CONSTANTS
 Pools = {"a", "b"}
 MaxLen = 16
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
