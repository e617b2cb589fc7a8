INIT Init
NEXT Next
VIEW View
CONSTRAINT Short
CONSTANTS
 Cap = 2
 Sizes <- S122
 CircAt = 0
 Lens = {1,2,3}
 MaxMade = 4
INVARIANTS Inside Apart Bounded Current Kept Ordered Behind
CHECK_DEADLOCK FALSE
