SPECIFICATION Spec
CONSTANTS N = 3
 NP = 3
 Hi = 8
 Single = FALSE
INVARIANTS Started Complete NeverBelow Close Stable
CHECK_DEADLOCK FALSE
