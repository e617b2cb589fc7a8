INIT Init
NEXT Next
VIEW View
CONSTRAINT Short
CONSTANTS
 Size = 2
 Circ = TRUE
 Lens = {1}
 Stride = 1
 MaxMade = 5
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
