INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANT Laminar
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
