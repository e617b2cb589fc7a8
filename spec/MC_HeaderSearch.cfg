CONSTANTS Units = 16
 Covers = TRUE
 Clears = TRUE
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
INVARIANT Found Laminar
CHECK_DEADLOCK FALSE
