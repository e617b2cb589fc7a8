INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANT Inside
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
