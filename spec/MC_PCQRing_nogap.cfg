CONSTANTS N = 3
 Max = 7
 DoneLast = TRUE
 ClearFirst = TRUE
 Gap = FALSE
SPECIFICATION Spec
INVARIANTS Fifo
PROPERTIES Served
CHECK_DEADLOCK FALSE
