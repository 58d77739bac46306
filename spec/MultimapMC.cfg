CONSTANTS
 Depth = 3
INIT Init
NEXT Next
INVARIANTS WellFormed Partition Commute
CHECK_DEADLOCK FALSE
