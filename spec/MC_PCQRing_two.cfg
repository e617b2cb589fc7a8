CONSTANTS N = 2
 Max = 5
 DoneLast = TRUE
 ClearFirst = TRUE
 Gap = TRUE
SPECIFICATION Spec
INVARIANTS Fifo Count
PROPERTIES Refines Served
CHECK_DEADLOCK FALSE
