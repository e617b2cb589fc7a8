CONSTANTS
 P = {p1, p2}
 C = {c1}
 N = 2
 Max = 3
 LockHead = FALSE
 LockTail = TRUE
 Take = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Faithful Once Agree
CHECK_DEADLOCK FALSE
