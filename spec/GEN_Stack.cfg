CONSTANTS Cap = 4
 MaxReq = 4
 MaxObjs = 3
INIT Init
NEXT Next
VIEW View
CONSTRAINT Small
INVARIANT Nested
PROPERTY CutKeepsBelow
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitAll
