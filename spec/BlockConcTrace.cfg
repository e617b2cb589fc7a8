CONSTANTS Seg = 65536
 NSeg = 131072
 Meta = 256
 Strict = TRUE
INIT CInit
NEXT CNext
CONSTRAINT Track
INVARIANT ExclusiveS ConservedS
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
