CONSTANTS N = 4
 Vals = {1, 2}
INIT Init
NEXT Next
VIEW View
INVARIANT Ascending NothingMissed MinMax
CHECK_DEADLOCK FALSE
