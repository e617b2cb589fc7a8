INIT Init
NEXT Next
CONSTANTS
 Threads = {1,2,3}
 K = 2
 N = 3
 Wait = "new"
 Flag = "early"
INVARIANTS NotStuck InOrder Marked OnePrimary
CHECK_DEADLOCK FALSE
