INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANTS Bounded Distinct
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
