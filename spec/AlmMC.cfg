CONSTANTS
 LMax = 6
INIT Init
NEXT Next
INVARIANTS Layout Orders Prefix TriTight
CHECK_DEADLOCK FALSE
