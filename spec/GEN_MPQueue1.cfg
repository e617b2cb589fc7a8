CONSTANT Cap = 1
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
