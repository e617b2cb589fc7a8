CONSTANTS
 P = {p1}
 C = {c1, c2}
 N = 1
 Max = 3
 LockHead = TRUE
 LockTail = TRUE
 Take = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Faithful Once Agree
CHECK_DEADLOCK FALSE
