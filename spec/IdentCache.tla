----------------------------- MODULE IdentCache -----------------------------
(* Identities are asked of the system once and remembered: the process's in  *)
(* one word of its memory, a thread's in one word of the thread's own.  A    *)
(* process made by fork starts with a copy of everything the forking thread  *)
(* could see.  What is remembered must be true of whoever asks.              *)
EXTENDS Integers, FiniteSets
CONSTANTS Ids,        \* what the system numbers threads with; a process is named after its first thread
          MaxBorn,
          FixPid, FixTid,   \* a new process forgets, or renews, what its parent remembered
          OwnTid            \* the thread's word is its own, not the process's
VARIABLES live,       \* thread ids in use -> process
          pidw,       \* process -> remembered, 0: nothing
          tidw,       \* thread -> remembered
          ans, born
vars == <<live, pidw, tidw, ans, born>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Init == \E i \in Ids : /\ live = [x \in {i} |-> i] /\ pidw = [x \in {i} |-> i]      \* filled in when the program starts
                       /\ tidw = [x \in {i} |-> 0] /\ ans = <<"none">> /\ born = 1
(* a number whose process still has threads is not given out either *)
Unused == Ids \ (DOMAIN live \cup {live[t] : t \in DOMAIN live})
Slot(t) == IF OwnTid THEN t ELSE live[t]
AskPid(t) == pidw' = (IF pidw[live[t]] = 0 THEN [pidw EXCEPT ![live[t]] = live[t]] ELSE pidw) /\ ans' = <<"pid", t, pidw'[live[t]]>>
             /\ UNCHANGED <<live, tidw, born>>
AskTid(t) == /\ tidw' = (IF tidw[Slot(t)] = 0 THEN [tidw EXCEPT ![Slot(t)] = t] ELSE tidw) /\ ans' = <<"tid", t, tidw'[Slot(t)]>>
             /\ UNCHANGED <<live, pidw, born>>
Thread(t) == \E i \in Unused : born < MaxBorn /\ born' = born + 1 /\ live' = Put(live, i, live[t]) /\ tidw' = Put(tidw, i, 0) /\ ans' = <<"none">>
             /\ UNCHANGED pidw
Fork(t) == \E i \in Unused : born < MaxBorn /\ born' = born + 1 /\ live' = Put(live, i, i) /\ ans' = <<"none">>
             /\ pidw' = Put(pidw, i, IF FixPid THEN i ELSE pidw[live[t]]) /\ tidw' = Put(tidw, i, IF FixTid THEN 0 ELSE tidw[Slot(t)])
Exit(t) == /\ Cardinality(DOMAIN live) > 1 /\ (live[t] = t => \A u \in DOMAIN live : live[u] = t => u = t)
           /\ live' = Drop(live, t) /\ tidw' = Drop(tidw, t) /\ pidw' = (IF live[t] = t THEN Drop(pidw, t) ELSE pidw)
           /\ ans' = <<"none">> /\ UNCHANGED born
Next == \E t \in DOMAIN live : AskPid(t) \/ AskTid(t) \/ Thread(t) \/ Fork(t) \/ Exit(t)
Spec == Init /\ [][Next]_vars
True == /\ (ans[1] = "pid" => ans[3] = live[ans[2]])
        /\ (ans[1] = "tid" => ans[3] = ans[2])
Remembered == \A t \in DOMAIN live : pidw[live[t]] \in {0, live[t]} /\ tidw[t] \in {0, t}
=============================================================================
