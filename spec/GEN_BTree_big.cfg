CONSTANTS N = 11
 MaxK = 3
INIT Init
NEXT Next
VIEW View
INVARIANT Sorted Refines WellFormed
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitAll
