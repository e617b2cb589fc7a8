CONSTANTS Cap = 6
 MaxReq = 3
 MaxObjs = 4
INIT Init
NEXT Next
VIEW View
CONSTRAINT Small
INVARIANT Nested
PROPERTY CutKeepsBelow
CHECK_DEADLOCK FALSE
