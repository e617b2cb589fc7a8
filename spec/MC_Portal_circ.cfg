INIT Init
NEXT Next
VIEW View
CONSTRAINT Short
CONSTANTS
 Cap = 2
 Sizes <- S23
 CircAt = 2
 Lens = {1}
 MaxMade = 6
INVARIANTS Inside Apart Bounded Current Kept Ordered Behind
CHECK_DEADLOCK FALSE
