INIT Init
NEXT Next
CONSTANTS
 Threads = {1,2}
 K = 2
 N = 3
 Wait = "new"
 Flag = "late"
INVARIANTS NotStuck InOrder Marked OnePrimary
CHECK_DEADLOCK FALSE
