SPECIFICATION Spec
CONSTANTS
 T = {t1, t2, t3}
 Seg = 2
 NSeg = 2
 Rounds = 2
 LockAlloc = TRUE
 LockFree = TRUE
 LockGrow = FALSE
INVARIANTS Exclusive Apart Whole
PROPERTY Needed
CHECK_DEADLOCK FALSE
