CONSTANTS BSz = 4
 MaxBlocks = 2
 MaxLive = 5
 Fixed = FALSE
 Heaps = {0}
INIT Init
NEXT Next
VIEW View
INVARIANT PagesOK BlocksOK NothingLost
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitAll
