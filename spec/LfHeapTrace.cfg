INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANTS Inside
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT W = 64
