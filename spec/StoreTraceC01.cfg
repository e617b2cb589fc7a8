CONSTANTS Seg = 65536
 NSeg = 131072
 Meta = 256
 Strict = FALSE
INIT TInit
NEXT TNext
CONSTRAINT Track
INVARIANT ExclusiveS ConservedS
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
