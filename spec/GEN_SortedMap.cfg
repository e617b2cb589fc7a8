CONSTANTS N = 3
 Vals = {1}
INIT Init
NEXT Next
VIEW View
INVARIANT Ascending NothingMissed MinMax
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitAll
