INIT Init
NEXT Next
VIEW View
CONSTRAINT Short
CONSTANTS
 Size = 5
 Circ = FALSE
 Lens = {1,2,6}
 Stride = 1
 MaxMade = 4
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
