CONSTANTS MaxH = 14
INIT Init
NEXT Next
INVARIANTS Addition Parity Complete
CHECK_DEADLOCK FALSE
