CONSTANTS Lo = 16
 Hi = 32
 Ahead = 3
INIT Init
NEXT Next
VIEW View
INVARIANTS Inside CanRead
PROPERTIES Kept RoundTrip
CHECK_DEADLOCK FALSE
