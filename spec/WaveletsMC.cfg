CONSTANTS NL = 4
Q = 3
NScale = 3
MaxN = 5
INIT Init
NEXT Next
INVARIANTS Bounded Complete HaarInverse HaarDetail HaarCover NeedletUnity SamePlace
CHECK_DEADLOCK FALSE
