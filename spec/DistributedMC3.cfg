CONSTANTS NP = 3
NT = 1
Order = "global"
INIT MInit
NEXT Next
INVARIANTS Right Sizes Live Split
CHECK_DEADLOCK FALSE
