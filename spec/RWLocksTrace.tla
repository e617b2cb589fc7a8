---------------------------- MODULE RWLocksTrace ----------------------------
(* Traces of threads locking and unlocking addresses.  A lock is held from   *)
(* the return of the lock call to the start of the unlock call.  A run that  *)
(* cannot go on ends in an event, stuck or hang.  What is looked at:         *)
(*   "exclusion"  who holds what at the same time; that a run stops is not   *)
(*   "progress"   every call returns; who else holds the address is not      *)
(*   "memory"     what is read under a lock is what the last writer left     *)
EXTENDS RWLocks, TraceBase
CONSTANT Look
VARIABLE mem            \* what each address protects: how often it was taken to write
vars == <<held, want, mem, l>>
Addrs == 0..15
TInit == held = {} /\ want = {} /\ mem = [a \in Addrs |-> 0] /\ l = 1
Reads(a, v) == Look = "progress" \/ v = mem[a]
TNext ==
  \/ Is("reset") /\ held' = {} /\ want' = {} /\ mem' = [a \in Addrs |-> 0]
  \/ Is("req") /\ Ask(Ev.t, Ev.a, Ev.w = 1) /\ UNCHANGED mem
  \/ /\ Is("got") /\ (Grant(Ev.t, Ev.a, Ev.w = 1) \/ (Look # "exclusion" /\ Take(Ev.t, Ev.a, Ev.w = 1)))
     /\ Reads(Ev.a, Ev.v) /\ mem' = [mem EXCEPT ![Ev.a] = @ + Ev.w]
  \/ Is("rel") /\ Reads(Ev.a, Ev.v) /\ Release(Ev.t, Ev.a) /\ UNCHANGED mem
  \/ /\ UNCHANGED mem /\ Look # "progress" /\ (Is("stuck") \/ Is("hang")) /\ UNCHANGED <<held, want>>
     /\ Look = "memory" \/ \E q \in want : Others(q.t, q.a) # {}     \* else nobody's lock is in anybody's way: locks of different addresses have merged, or one is lost
  \/ Is("end") /\ held = {} /\ want = {} /\ UNCHANGED <<held, want, mem>>
=============================================================================
