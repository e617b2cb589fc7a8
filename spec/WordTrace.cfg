CONSTANTS B = 65536
 L = 4
INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANT Words
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
