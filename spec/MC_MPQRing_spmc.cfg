CONSTANTS
 P = {p1}
 C = {c1, c2}
 N = 2
 Max = 4
 LockHead = FALSE
 LockTail = TRUE
 Take = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Faithful Once Agree
CHECK_DEADLOCK FALSE
