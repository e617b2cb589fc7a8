INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANT OneToOne ProjectsLive ProjectsApart
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
