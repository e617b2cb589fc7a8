SPECIFICATION Spec
CONSTANTS
 Ids = {1, 2, 3, 4}
 MaxBorn = 6
 FixPid = TRUE
 FixTid = TRUE
 OwnTid = FALSE
INVARIANTS True 
CHECK_DEADLOCK FALSE
