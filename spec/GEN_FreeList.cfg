CONSTANTS Cap = 5
 MaxReq = 5
INIT Init
NEXT Next
VIEW View
INVARIANTS Inv FailOnlyWhenFull
PROPERTIES Implements
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitAll
