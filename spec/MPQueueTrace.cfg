CONSTANT T = 8
INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANTS Exclusive InTurn
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
