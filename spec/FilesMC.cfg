CONSTANTS
 C = {1, 2}
 MaxLen = 4
 MaxHandles = 2
INIT Init
NEXT Next
INVARIANTS HandlesFresh WriteLocal
CHECK_DEADLOCK FALSE
