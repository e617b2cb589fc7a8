INIT Init
NEXT Next
VIEW View
CONSTRAINT Short
CONSTANTS
 Cap = 2
 Sizes <- S23
 CircAt = 2
 Lens = {1}
 MaxMade = 5
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
