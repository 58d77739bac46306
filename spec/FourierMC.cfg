CONSTANTS
 NMax = 5
 Vals = {0, 1, 3}
INIT Init
NEXT Next
INVARIANTS Identities Samples Undone
CHECK_DEADLOCK FALSE
