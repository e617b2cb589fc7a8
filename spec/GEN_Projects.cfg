CONSTANTS Procs = {0, 1}
 PNames = {1, 2}
 Ids = {1, 2, 3}
INIT Init
NEXT Next
VIEW View
INVARIANT OneToOne ProjectsLive ProjectsApart
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
