CONSTANTS W = 0
 NMax = 5
 BMax = 7
 LMax = 7
 TMax = 3
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
