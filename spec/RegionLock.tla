----------------------------- MODULE RegionLock -----------------------------
(* Why the allocator of the store needs its lock: threads of several         *)
(* processes read the shared list of free blocks, work out a new one and     *)
(* store it.  A list that has run out gets another segment.                  *)
EXTENDS Integers, FiniteSets
CONSTANTS T, Seg, NSeg, Rounds, LockAlloc, LockFree, LockGrow
VARIABLES freeb, segs, lock, pc, got, mine, k
vars == <<freeb, segs, lock, pc, got, mine, k>>
Blocks(g) == {<<g, i>> : i \in 1..Seg}
Init == freeb = Blocks(1) /\ segs = {1} /\ lock = FALSE /\ pc = [t \in T |-> "idle"] /\ got = [t \in T |-> {}]
        /\ mine = [t \in T |-> {}] /\ k = [t \in T |-> 0]
To(t, l) == pc' = [pc EXCEPT ![t] = l]
Enter(t, locked, l) == To(t, l) /\ (IF locked THEN ~lock /\ lock' = TRUE ELSE UNCHANGED lock) /\ UNCHANGED <<freeb, segs, got, mine>>
Unlock(locked) == IF locked THEN lock' = FALSE ELSE UNCHANGED lock
Read(t, l) == got' = [got EXCEPT ![t] = freeb] /\ To(t, l) /\ UNCHANGED <<freeb, segs, lock, mine, k>>
Step(t) ==
  \/ pc[t] = "idle" /\ k[t] < Rounds /\ k' = [k EXCEPT ![t] = @ + 1] /\ Enter(t, LockAlloc, "aread")
  \/ pc[t] = "aread" /\ Read(t, "apick")
  \/ /\ pc[t] = "apick" /\ got[t] # {} /\ To(t, "idle") /\ Unlock(LockAlloc) /\ UNCHANGED <<segs, got, k>>
     /\ \E b \in got[t] : freeb' = got[t] \ {b} /\ mine' = [mine EXCEPT ![t] = @ \cup {b}]
  (* none left: a new segment *)
  \/ /\ pc[t] = "apick" /\ got[t] = {} /\ Cardinality(segs) < NSeg /\ To(t, "grow") /\ UNCHANGED <<freeb, segs, got, mine, k>>
     /\ (IF LockGrow THEN UNCHANGED lock ELSE Unlock(LockAlloc))
  \/ /\ pc[t] = "apick" /\ got[t] = {} /\ Cardinality(segs) = NSeg /\ To(t, "idle") /\ Unlock(LockAlloc) /\ UNCHANGED <<freeb, segs, got, mine, k>>
  \/ /\ pc[t] = "grow" /\ LET g == Cardinality(segs) + 1 IN segs' = segs \cup {g} /\ freeb' = freeb \cup Blocks(g)
     /\ To(t, IF LockGrow THEN "aread" ELSE "again") /\ UNCHANGED <<lock, got, mine, k>>
  \/ pc[t] = "again" /\ Enter(t, LockAlloc, "aread") /\ UNCHANGED k
  \/ pc[t] = "idle" /\ mine[t] # {} /\ Enter(t, LockFree, "fread") /\ UNCHANGED k
  \/ pc[t] = "fread" /\ Read(t, "fput")
  \/ /\ pc[t] = "fput" /\ To(t, "idle") /\ Unlock(LockFree) /\ UNCHANGED <<segs, got, k>>
     /\ \E b \in mine[t] : freeb' = got[t] \cup {b} /\ mine' = [mine EXCEPT ![t] = @ \ {b}]
Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars
Exclusive == \A t, u \in T : t # u => mine[t] \cap mine[u] = {}
Apart == \A t \in T : mine[t] \cap freeb = {}
(* no interleaving loses space, or makes a segment that was not needed *)
Whole == (\A t \in T : pc[t] = "idle") => freeb \cup UNION {mine[t] : t \in T} = UNION {Blocks(g) : g \in segs}
Needed == [][segs' # segs => freeb = {}]_vars
=============================================================================
