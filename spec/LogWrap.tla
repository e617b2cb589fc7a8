------------------------------- MODULE LogWrap -------------------------------
(* How the threads of a circular log take its slots: each adds one to next;  *)
(* who steps over the end (and only who steps over it first) sets it back,   *)
(* the others wait for that.  Refines the circular log: the g-th slot        *)
(* granted is slot g mod K.  Variants: the wait as the code once had it, the *)
(* flag set late.                                                            *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, K, N, Wait, Flag
VARIABLES next, flag, g, pc, p, left, got, seen
vars == <<next, flag, g, pc, p, left, got, seen>>
Init == /\ next = 0 /\ flag = FALSE /\ g = 0 /\ seen = {}
        /\ pc = [t \in Threads |-> "idle"] /\ p = [t \in Threads |-> 0] /\ left = [t \in Threads |-> N]
        /\ got = TRUE                     \* whether every slot granted was the one the circular log grants
Goto(t, a) == pc' = [pc EXCEPT ![t] = a]
Add(t) ==
  /\ pc[t] \in {"idle", "again"} /\ left[t] > 0
  /\ p' = [p EXCEPT ![t] = next] /\ next' = next + 1
  /\ IF next < K
     THEN /\ g' = g + 1 /\ got' = (got /\ next = g % K) /\ seen' = IF g >= K THEN seen \cup {flag} ELSE seen
          /\ left' = [left EXCEPT ![t] = @ - 1] /\ Goto(t, "idle")
     ELSE /\ Goto(t, IF next = K THEN (IF Flag = "early" THEN "flag" ELSE "back") ELSE "wait") /\ UNCHANGED <<g, got, left, seen>>
  /\ UNCHANGED flag
SetFlag(t) == pc[t] = "flag" /\ flag' = TRUE /\ Goto(t, IF Flag = "early" THEN "back" ELSE "again") /\ UNCHANGED <<next, g, p, left, got, seen>>
Back(t) == pc[t] = "back" /\ next' = 0 /\ Goto(t, IF Flag = "early" THEN "again" ELSE "flag") /\ UNCHANGED <<flag, g, p, left, got, seen>>
Over(t) == IF Wait = "old" THEN next + 1 >= p[t] ELSE next > K
Waited(t) == pc[t] = "wait" /\ ~Over(t) /\ Goto(t, "again") /\ UNCHANGED <<next, flag, g, p, left, got, seen>>
Next == \E t \in Threads : Add(t) \/ SetFlag(t) \/ Back(t) \/ Waited(t)
CanGo(t) == (pc[t] \in {"idle", "again"} /\ left[t] > 0) \/ pc[t] \in {"flag", "back"} \/ (pc[t] = "wait" /\ ~Over(t))
Finished(t) == pc[t] = "idle" /\ left[t] = 0
NotStuck == (\A t \in Threads : Finished(t)) \/ \E t \in Threads : CanGo(t)
InOrder == got
(* whoever is given a slot for the second time finds the log marked as wrapped *)
Marked == FALSE \notin seen
OnePrimary == Cardinality({t \in Threads : pc[t] \in {"flag", "back"}}) <= (IF Flag = "early" THEN 1 ELSE Cardinality(Threads))
=============================================================================
