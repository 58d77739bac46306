CONSTANTS MaxDepth = 3
 Lim = 9
 MaxStep = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
