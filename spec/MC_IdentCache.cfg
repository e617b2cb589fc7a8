SPECIFICATION Spec
CONSTANTS
 Ids = {1, 2, 3, 4}
 MaxBorn = 6
 FixPid = TRUE
 FixTid = TRUE
 OwnTid = TRUE
INVARIANTS True Remembered
CHECK_DEADLOCK FALSE
