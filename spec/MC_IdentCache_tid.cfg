SPECIFICATION Spec
CONSTANTS
 Ids = {1, 2, 3, 4}
 MaxBorn = 6
 FixPid = TRUE
 FixTid = FALSE
 OwnTid = TRUE
INVARIANTS True 
CHECK_DEADLOCK FALSE
