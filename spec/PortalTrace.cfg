INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANTS Inside Apart Bounded Current
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
