CONSTANTS Lo = 4
 Hi = 16
 Ahead = 3
INIT Init
NEXT Next
VIEW View
INVARIANTS Inside CanRead
PROPERTIES Kept RoundTrip
CHECK_DEADLOCK FALSE
