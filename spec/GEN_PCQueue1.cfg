CONSTANT Cap = 1
INIT Init
NEXT Next
VIEW View
INVARIANTS Bounded Distinct Order
PROPERTY Leaves
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
