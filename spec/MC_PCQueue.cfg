CONSTANT Cap = 5
INIT Init
NEXT Next
VIEW View
INVARIANTS Bounded Distinct Order
PROPERTY Leaves
CHECK_DEADLOCK FALSE
