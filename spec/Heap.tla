------------------------------- MODULE Heap -------------------------------
(* A heap hands out runs of allocation units (16 bytes each) of a fixed      *)
(* capacity.  The specification fixes what an allocation may return (any     *)
(* free run that is big enough) and when it may fail (only if there is no    *)
(* such run), not which run is chosen.  heaps maps a heap id to its state.   *)
EXTENDS Integers, FiniteSets, TLC
VARIABLE heaps       \* id -> [cap, live, used];  live : first unit -> number of units

Unit == 16
Units(bytes) == (bytes + (Unit - 1)) \div Unit
NewHeap(cap) == [cap |-> cap, live |-> <<>>, used |-> 0]
IsFree(hp, s, n) == /\ s >= 0 /\ s + n <= hp.cap
                    /\ \A b \in DOMAIN hp.live : b + hp.live[b] <= s \/ b >= s + n
(* If a run of n free units exists at all, one starts at 0 or where a live allocation ends. *)
CanFit(hp, n) == \E s \in {0} \cup {a + hp.live[a] : a \in DOMAIN hp.live} : IsFree(hp, s, n)
FreeUnits(hp) == hp.cap - hp.used
IsEmpty(hp) == hp.used = 0

HeapInit == heaps = <<>>
Create(h, cap) == heaps' = (h :> NewHeap(cap)) @@ heaps
Destroy(h) == h \in DOMAIN heaps /\ heaps' = [x \in DOMAIN heaps \ {h} |-> heaps[x]]
Alloc(h, n, s) ==
  LET hp == heaps[h] IN
  /\ h \in DOMAIN heaps
  /\ IsFree(hp, s, n)
  /\ heaps' = [heaps EXCEPT ![h] = [hp EXCEPT !.live = (s :> n) @@ @, !.used = @ + n]]
AllocFail(h, n) ==
  /\ h \in DOMAIN heaps
  /\ ~CanFit(heaps[h], n)
  /\ UNCHANGED heaps
Free(h, s) ==
  LET hp == heaps[h] IN
  /\ h \in DOMAIN heaps
  /\ s \in DOMAIN hp.live
  /\ heaps' = [heaps EXCEPT ![h] = [hp EXCEPT !.live = [x \in DOMAIN @ \ {s} |-> @[x]], !.used = @ - hp.live[s]]]

---------------------------------------------------------------------------
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(f, S \ {x})
DisjointLive(hp) == \A a, b \in DOMAIN hp.live : a < b => a + hp.live[a] <= b
InBounds(hp) == \A a \in DOMAIN hp.live : a >= 0 /\ a + hp.live[a] <= hp.cap
Accounted(hp) == hp.used = SumOf(hp.live, DOMAIN hp.live) /\ hp.used <= hp.cap
HeapOK == \A h \in DOMAIN heaps : DisjointLive(heaps[h]) /\ InBounds(heaps[h]) /\ Accounted(heaps[h])
FullyRecoverable == \A h \in DOMAIN heaps : IsEmpty(heaps[h]) => CanFit(heaps[h], heaps[h].cap)
=============================================================================
