INIT Init
NEXT Next
VIEW View
CONSTANTS
 W = 4
 NW = 2
 Own = 1
 Lens = {1,2,3}
 Aligns = {1,2,4}
 MaxMade = 5
 FirstFit = FALSE
INVARIANTS Inside Apart Whole RoomIsFit
CHECK_DEADLOCK FALSE
