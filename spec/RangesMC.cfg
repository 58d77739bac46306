CONSTANTS M = 5
INIT Init
NEXT Next
INVARIANTS SubOk MergeOk FlipOk MulOk LcmOk
CHECK_DEADLOCK FALSE
