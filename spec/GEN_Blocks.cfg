CONSTANTS Seg = 8
 NSeg = 2
 Meta = 1
 Sizes = {1, 2, 4, 8}
 MaxLive = 4
 MaxHist = 1
INIT TInit
NEXT Next
VIEW View2
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
