SPECIFICATION Spec
CONSTANT NMax = 4
INVARIANTS Lossless Combined OrdersInv
CHECK_DEADLOCK FALSE
