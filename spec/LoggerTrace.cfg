INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANTS Inside Apart
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
