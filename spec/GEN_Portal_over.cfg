INIT Init
NEXT Next
VIEW View
CONSTRAINT Short
CONSTANTS
 Cap = 2
 Sizes <- S122
 CircAt = 0
 Lens = {1,2,3}
 MaxMade = 3
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
