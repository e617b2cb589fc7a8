CONSTANTS Lo = 4
 Hi = 16
 Ahead = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS Inside CanRead
PROPERTIES Kept RoundTrip
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitAll
