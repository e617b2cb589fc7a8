CONSTANTS BSz = 3
 MaxBlocks = 3
 MaxLive = 4
 Fixed = FALSE
 Heaps = {0, 1}
INIT Init
NEXT Next
VIEW View
INVARIANT PagesOK BlocksOK NothingLost
CHECK_DEADLOCK FALSE
