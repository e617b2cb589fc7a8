INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANT NothingLost
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
