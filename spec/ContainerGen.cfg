CONSTANTS MaxOps = 9
 MaxObjs = 6
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
