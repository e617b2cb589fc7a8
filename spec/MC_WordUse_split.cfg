SPECIFICATION Spec
CONSTANTS
 B = 2
 L = 4
 T = {t1, t2, t3}
 K = 2
 Split = TRUE
 HalfOnly = FALSE
 Peek = FALSE
INVARIANTS Types NoneLost OneInside FreeAfter 

CHECK_DEADLOCK FALSE
