INIT Init
NEXT Next
VIEW View
CONSTRAINT Short
CONSTANTS
 Size = 3
 Circ = TRUE
 Lens = {1}
 Stride = 1
 MaxMade = 6
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
