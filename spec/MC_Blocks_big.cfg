CONSTANTS Seg = 4
 NSeg = 4
 Meta = 1
 Sizes = {1, 2, 4}
 MaxLive = 5
 MaxHist = 0
INIT TInit
NEXT Next
VIEW View
INVARIANT Exclusive Conserved FreeApart Merged Refined UsedExact RegionRest CanAlloc
CHECK_DEADLOCK FALSE
