CONSTANTS T = {t1, t2}
 A = {1, 2}
 MaxR = 2
 MaxAsk = 3
 MaxN = 2
 KeepAddr = TRUE
 DrainSem = TRUE
 WaitSlot = TRUE
SPECIFICATION Spec
INVARIANT Exclusive Progress OneEach Known
PROPERTY Abstract
SYMMETRY Sym
CHECK_DEADLOCK FALSE
