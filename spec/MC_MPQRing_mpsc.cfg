CONSTANTS
 P = {p1, p2}
 C = {c1}
 N = 3
 Max = 5
 LockHead = TRUE
 LockTail = FALSE
 Take = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Faithful Once Agree
CHECK_DEADLOCK FALSE
