INIT Init
NEXT Next
VIEW View
CONSTRAINT Short
CONSTANTS
 Size = 4
 Circ = TRUE
 Lens = {1,2,3}
 Stride = 1
 MaxMade = 6
INVARIANTS Inside Apart Forward
CHECK_DEADLOCK FALSE
