CONSTANTS Cap = 7
 MaxReq = 4
INIT Init
NEXT Next
VIEW View
INVARIANTS Inv FailOnlyWhenFull
PROPERTIES Implements
CHECK_DEADLOCK FALSE
