INIT Init
NEXT Next
CONSTANTS
 Threads = {1,2}
 K = 2
 N = 3
 Wait = "old"
 Flag = "early"
INVARIANTS NotStuck InOrder Marked OnePrimary
CHECK_DEADLOCK FALSE
