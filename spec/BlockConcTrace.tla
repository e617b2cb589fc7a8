--------------------------- MODULE BlockConcTrace ---------------------------
(* Threads of one or more processes on one store: each allocation and each   *)
(* free takes effect at one instant between its call and its return, as in   *)
(* Blocks; when all is quiet the allocator's lists are exactly what that     *)
(* makes them.  A call names its outcome.                                    *)
EXTENDS StoreTrace
VARIABLE op
T == 0..15
Idle == [o |-> "none"]
Quiet == \A t \in T : op[t] = Idle
CInit == TInit /\ op = [t \in T |-> Idle]
Done(t) == op' = [op EXCEPT ![t] = [o |-> "ret"]]
Effect(t) == LET c == op[t] IN
  /\ Done(t) /\ Env /\ UNCHANGED l
  /\ \/ c.o = "alloc" /\ c.out >= 0 /\ Alloc(c.out, c.s)
     \/ c.o = "alloc" /\ c.out = -1 /\ AllocFail(c.s, FALSE)
     \/ c.o = "free" /\ Free(c.a, c.s)
CNext ==
  \/ \E t \in T : op[t].o \in {"alloc", "free"} /\ Effect(t)
  \/ Is("c") /\ op[Ev.t] = Idle /\ op' = [op EXCEPT ![Ev.t] = Ev] /\ Same /\ Env
  \/ Is("r") /\ op[Ev.t].o = "ret" /\ Ok /\ op' = [op EXCEPT ![Ev.t] = Idle] /\ Same /\ Env
  \/ (More /\ Ev.e \in {"reset", "join", "leave", "lists", "remove", "chk"} /\ Quiet) /\ TNext /\ UNCHANGED op
=============================================================================
