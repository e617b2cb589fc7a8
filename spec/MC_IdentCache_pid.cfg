SPECIFICATION Spec
CONSTANTS
 Ids = {1, 2, 3, 4}
 MaxBorn = 6
 FixPid = FALSE
 FixTid = TRUE
 OwnTid = TRUE
INVARIANTS True 
CHECK_DEADLOCK FALSE
