INIT Init
NEXT NextX
VIEW View
CONSTANTS
 W = 4
 NW = 2
 Own = 2
 Lens = {1,2}
 Aligns = {1,2,4}
 MaxMade = 5
 FirstFit = TRUE
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
