INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANT HeapOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
