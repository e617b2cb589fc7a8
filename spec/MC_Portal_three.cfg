INIT Init
NEXT Next
VIEW View
CONSTRAINT Short
CONSTANTS
 Cap = 3
 Sizes <- S212
 CircAt = 0
 Lens = {1,2}
 MaxMade = 5
INVARIANTS Inside Apart Bounded Current Kept Ordered Behind
CHECK_DEADLOCK FALSE
