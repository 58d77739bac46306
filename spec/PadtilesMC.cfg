SPECIFICATION Spec
CONSTANTS MaxN = 5
 MaxT = 4
 Workers = 2
INVARIANTS SumToOne Positive Shared Reconstructed Own
CHECK_DEADLOCK FALSE
