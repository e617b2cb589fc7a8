----------------------------- MODULE LockedCall -----------------------------
(* The shape of a call that takes an object's lock itself: take the lock or locks, read what the object holds, write what
   follows from it in several steps, let go.  An object that grows has a second part with a lock of its own, which a caller
   can reach through the whole (page after page) or directly (an address near which it wants memory).  Each part holds a pair
   of numbers that a write makes equal again, counting itself; with the rules kept no reader sees them differ, no write is
   lost and nobody waits for ever.  The variants keep one rule less each. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, Ops,    \* how many calls each thread makes
          WriterLock,      \* "W" or, a variant, "R": what a call that writes takes
          Early,           \* a variant: lets go before its last write
          Bare,            \* kinds of calls that take no lock: a variant, unless empty
          NearOrder        \* <<1, 2>> or, a variant, <<2, 1>>: the order in which a call near an address locks
VARIABLES pc, kind, have, want, got, left, a, b, rd, wr, done
vars == <<pc, kind, have, want, got, left, a, b, rd, wr, done>>
Parts == {1, 2}
Kinds == {"read", "write", "whole", "near"}
Writes(k) == k # "read"
Touches(k) == IF k \in {"whole", "near"} THEN 2 ELSE 1        \* the part that is written or read
Locks(k) == IF k \in Bare THEN <<>> ELSE IF k = "whole" THEN <<1, 2>> ELSE IF k = "near" THEN NearOrder ELSE <<1>>
Mode(k) == IF k = "read" THEN "R" ELSE WriterLock
BaseFirst == <<1, 2>>
PartFirst == <<2, 1>>
Init == /\ pc = [t \in Threads |-> "idle"] /\ kind = [t \in Threads |-> "read"] /\ have = [t \in Threads |-> {}]
        /\ want = [t \in Threads |-> <<>>] /\ got = [t \in Threads |-> <<0, 0>>] /\ left = [t \in Threads |-> Ops]
        /\ a = [p \in Parts |-> 0] /\ b = [p \in Parts |-> 0]
        /\ rd = [p \in Parts |-> {}] /\ wr = [p \in Parts |-> {}] /\ done = [p \in Parts |-> 0]
Call(t) == /\ pc[t] = "idle" /\ left[t] > 0
           /\ \E k \in Kinds : kind' = [kind EXCEPT ![t] = k] /\ want' = [want EXCEPT ![t] = Locks(k)]
           /\ pc' = [pc EXCEPT ![t] = "lock"] /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ UNCHANGED <<have, got, a, b, rd, wr, done>>
Lock(t) == /\ pc[t] = "lock" /\ want[t] # <<>>
           /\ LET p == Head(want[t]) IN
              /\ wr[p] = {} /\ (Mode(kind[t]) = "W" => rd[p] = {})
              /\ IF Mode(kind[t]) = "W" THEN wr' = [wr EXCEPT ![p] = {t}] /\ rd' = rd ELSE rd' = [rd EXCEPT ![p] = @ \cup {t}] /\ wr' = wr
              /\ have' = [have EXCEPT ![t] = @ \cup {p}]
           /\ want' = [want EXCEPT ![t] = Tail(@)]
           /\ UNCHANGED <<pc, kind, got, left, a, b, done>>
Look(t) == /\ pc[t] = "lock" /\ want[t] = <<>>
           /\ got' = [got EXCEPT ![t] = <<a[Touches(kind[t])], 0>>] /\ pc' = [pc EXCEPT ![t] = "look"]
           /\ UNCHANGED <<kind, have, want, left, a, b, rd, wr, done>>
LookOn(t) == /\ pc[t] = "look" /\ ~Writes(kind[t])
             /\ got' = [got EXCEPT ![t] = <<@[1], b[Touches(kind[t])]>>] /\ pc' = [pc EXCEPT ![t] = "free"]
             /\ UNCHANGED <<kind, have, want, left, a, b, rd, wr, done>>
Write(t) == /\ pc[t] = "look" /\ Writes(kind[t])
            /\ a' = [a EXCEPT ![Touches(kind[t])] = got[t][1] + 1] /\ pc' = [pc EXCEPT ![t] = IF Early THEN "free" ELSE "rest"]
            /\ UNCHANGED <<kind, have, want, got, left, b, rd, wr, done>>
Rest(t) == /\ pc[t] \in {"rest", "late"}
           /\ b' = [b EXCEPT ![Touches(kind[t])] = got[t][1] + 1] /\ done' = [done EXCEPT ![Touches(kind[t])] = @ + 1]
           /\ pc' = [pc EXCEPT ![t] = IF pc[t] = "late" THEN "idle" ELSE "free"]
           /\ got' = [got EXCEPT ![t] = <<0, 0>>]
           /\ UNCHANGED <<kind, have, want, left, a, rd, wr>>
Free(t) == /\ pc[t] = "free"
           /\ rd' = [p \in Parts |-> rd[p] \ {t}] /\ wr' = [p \in Parts |-> wr[p] \ {t}] /\ have' = [have EXCEPT ![t] = {}]
           /\ pc' = [pc EXCEPT ![t] = IF Early /\ Writes(kind[t]) THEN "late" ELSE "idle"]
           /\ got' = [got EXCEPT ![t] = IF Early /\ Writes(kind[t]) THEN @ ELSE <<0, 0>>]
           /\ UNCHANGED <<kind, want, left, a, b, done>>
Next == \E t \in Threads : Call(t) \/ Lock(t) \/ Look(t) \/ LookOn(t) \/ Write(t) \/ Rest(t) \/ Free(t)
Spec == Init /\ [][Next]_vars
Over == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Sound == \A t \in Threads : (pc[t] = "free" /\ kind[t] = "read") => got[t][1] = got[t][2]
Kept == (\A t \in Threads : pc[t] = "idle") => \A p \in Parts : a[p] = done[p] /\ b[p] = done[p]
Alone == \A p \in Parts : Cardinality(wr[p]) <= 1 /\ (wr[p] # {} => rd[p] = {})
NeverStuck == Over \/ ENABLED Next
=============================================================================
