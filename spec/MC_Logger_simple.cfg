INIT Init
NEXT Next
VIEW View
CONSTRAINT Short
CONSTANTS
 Size = 5
 Circ = FALSE
 Lens = {1,2,6}
 Stride = 1
 MaxMade = 5
INVARIANTS Inside Apart Kept FullOfNewest Forward
CHECK_DEADLOCK FALSE
