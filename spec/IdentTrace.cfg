INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANT Distinct
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
