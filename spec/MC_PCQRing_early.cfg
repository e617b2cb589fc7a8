CONSTANTS N = 3
 Max = 4
 DoneLast = FALSE
 ClearFirst = TRUE
 Gap = TRUE
SPECIFICATION Spec
INVARIANTS Fifo Count

CHECK_DEADLOCK FALSE
