CONSTANTS Names = {1, 2, 3}
 Addrs = {1, 2, 3}
 CanRefuse = TRUE
 MaxHist = 0
INIT Init
NEXT Next
VIEW View
INVARIANT OneToOne PairOK NoStuck
CHECK_DEADLOCK FALSE
