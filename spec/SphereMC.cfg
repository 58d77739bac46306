CONSTANTS MaxLen = 3
INIT Init
NEXT Next
INVARIANTS Rotation Invertible Named Straight Turns
CHECK_DEADLOCK FALSE
