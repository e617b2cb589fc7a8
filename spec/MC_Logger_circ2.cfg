INIT Init
NEXT Next
VIEW View
CONSTRAINT Short
CONSTANTS
 Size = 2
 Circ = TRUE
 Lens = {1}
 Stride = 1
 MaxMade = 5
INVARIANTS Inside Apart Kept FullOfNewest Forward
CHECK_DEADLOCK FALSE
