CONSTANTS NP = 3
NT = 4
Order = "global"
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
