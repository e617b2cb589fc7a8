CONSTANT Look = "exclusion"
INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANT Exclusive
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
