CONSTANTS
 C = {1, 2, 3}
 MaxLen = 14
 Hdf = TRUE
 MaxHandles = 5
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
