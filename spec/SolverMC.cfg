CONSTANTS
 Diag = {2, 3}
 X0 = {0, 1}
 Mset = {1, 2}
INIT Init
NEXT Next
INVARIANTS TrueResidual Conjugate Solved
CHECK_DEADLOCK FALSE
