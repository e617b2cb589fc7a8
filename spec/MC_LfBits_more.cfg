SPECIFICATION Spec
CONSTANTS
 T = {t1, t2}
 W = 6
 Lens = {1,2,3}
 Rounds = 4
 Cas = TRUE
 MarkFirst = TRUE
INVARIANTS Exclusive Exact OwnEnd Marks
CHECK_DEADLOCK FALSE
