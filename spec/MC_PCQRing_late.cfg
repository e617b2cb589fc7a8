CONSTANTS N = 4
 Max = 7
 DoneLast = TRUE
 ClearFirst = FALSE
 Gap = TRUE
SPECIFICATION Spec
INVARIANTS Fifo Count
PROPERTIES Refines Served
CHECK_DEADLOCK FALSE
