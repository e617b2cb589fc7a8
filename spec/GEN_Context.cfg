CONSTANTS Names = {1, 2, 3}
 Addrs = {1, 2, 3}
 CanRefuse = FALSE
 MaxHist = 1
INIT Init
NEXT Next
VIEW View
INVARIANT OneToOne PairOK
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
