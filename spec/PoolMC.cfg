CONSTANTS
 Sizes = {0, 1, 3, 4, 6, 9}
 Align = 4
 MaxSteps = 7
INIT Init
NEXT Next
INVARIANTS NoOverlap Inside Steady
VIEW View
CHECK_DEADLOCK FALSE
