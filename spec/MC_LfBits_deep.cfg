SPECIFICATION Spec
CONSTANTS
 T = {t1, t2, t3}
 W = 4
 Lens = {1,2}
 Rounds = 2
 Cas = TRUE
 MarkFirst = TRUE
INVARIANTS Exclusive Exact OwnEnd Marks
CHECK_DEADLOCK FALSE
