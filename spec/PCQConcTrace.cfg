INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANTS Bounded
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
