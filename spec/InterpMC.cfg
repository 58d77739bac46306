CONSTANTS
 NMax = 4
 Vals = {0, 5}
INIT Init
NEXT Next
INVARIANTS Edges Periods Partition Through Const Between Slope
CHECK_DEADLOCK FALSE
