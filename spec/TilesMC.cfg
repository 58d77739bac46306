CONSTANTS MaxN = 2
 MaxOps = 2
INIT Init
NEXT Next
INVARIANTS Partition Member Zero Local Pure Round
CHECK_DEADLOCK FALSE
