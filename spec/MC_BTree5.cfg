CONSTANTS N = 14
 MaxK = 5
INIT Init
NEXT Next
VIEW View
INVARIANT Sorted Refines WellFormed
CHECK_DEADLOCK FALSE
