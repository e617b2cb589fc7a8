CONSTANTS T = {t1, t2, t3}
 A = {1}
 MaxR = 2
 MaxAsk = 2
 MaxN = 2
 KeepAddr = TRUE
 DrainSem = TRUE
 WaitSlot = TRUE
SPECIFICATION Spec
INVARIANT Exclusive Progress OneEach Known
PROPERTY Abstract
SYMMETRY Sym
CHECK_DEADLOCK FALSE
