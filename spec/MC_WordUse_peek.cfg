SPECIFICATION Spec
CONSTANTS
 B = 2
 L = 4
 T = {t1, t2, t3}
 K = 2
 Split = FALSE
 HalfOnly = FALSE
 Peek = TRUE
INVARIANTS Types NoneLost OneInside FreeAfter 

CHECK_DEADLOCK FALSE
