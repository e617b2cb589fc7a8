CONSTANTS Seg = 4
 NSeg = 2
 Meta = 1
 Sizes = {1, 2, 4}
 MaxLive = 8
 MaxHist = 0
INIT TInit
NEXT Next
VIEW View2
INVARIANT Exclusive Conserved FreeApart Merged Refined UsedExact RegionRest CanAlloc
CHECK_DEADLOCK FALSE
