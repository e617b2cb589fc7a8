CONSTANTS Units = 8
 Covers = TRUE
 Clears = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
INVARIANT Laminar
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitAll
