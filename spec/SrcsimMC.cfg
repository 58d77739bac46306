SPECIFICATION Spec
CONSTANTS N = 5
 Objs = {1, 2}
 Workers = {1, 2}
INVARIANTS Right Disjoint
CHECK_DEADLOCK FALSE
