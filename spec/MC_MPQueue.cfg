CONSTANT Cap = 4
INIT Init
NEXT Next
VIEW View
INVARIANTS Exclusive InTurn Order
CHECK_DEADLOCK FALSE
