CONSTANTS NP = 2
NT = 3
Order = "global"
INIT MInit
NEXT Next
INVARIANTS Right Sizes Live Split
CHECK_DEADLOCK FALSE
