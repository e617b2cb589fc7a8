SPECIFICATION Spec
CONSTANTS
 B = 2
 L = 4
 T = {t1, t2, t3}
 K = 3
 Split = FALSE
 HalfOnly = FALSE
 Peek = FALSE
INVARIANTS Types NoneLost OneInside FreeAfter Arith
PROPERTY Through
CHECK_DEADLOCK FALSE
