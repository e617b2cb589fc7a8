INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANT Nested
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
