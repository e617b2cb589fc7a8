INIT Init
NEXT Next
CONSTANTS
 Threads = {1,2,3,4}
 K = 3
 N = 2
 Wait = "new"
 Flag = "early"
INVARIANTS NotStuck InOrder Marked OnePrimary
CHECK_DEADLOCK FALSE
