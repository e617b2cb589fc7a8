CONSTANTS Lo = 16
 Hi = 32
 Ahead = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS Inside CanRead
PROPERTIES Kept RoundTrip
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitAll
