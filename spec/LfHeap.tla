------------------------------- MODULE LfHeap -------------------------------
(* The lock-free heap: its space is counted in units, and the units in words *)
(* of W; an allocation is a run of units within a word.  The first units     *)
(* hold the heap's own data.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT W
VARIABLES nw, hdr,       \* words; units of the heap's own data
          free,          \* word -> its free places 0..W-1
          live           \* allocation -> [at |-> first unit, n |-> units]
hvars == <<nw, hdr, free, live>>
Words == 0..(nw - 1)
Places(u, n) == (u % W)..((u % W) + n - 1)
(* n units starting at unit u, all of them free *)
Open(u, n) == n > 0 /\ u >= 0 /\ u \div W \in Words /\ (u % W) + n <= W /\ Places(u, n) \subseteq free[u \div W]
(* a place for n units at a multiple of a *)
Fits(w, n, a) == \E p \in free[w] : p % a = 0 /\ p + n <= W /\ p..(p + n - 1) \subseteq free[w]
Room(n, a) == \E w \in Words : Fits(w, n, a)
Fresh(words, own) == /\ nw' = words /\ hdr' = own /\ live' = [i \in {} |-> 0]
                     /\ free' = [w \in 0..(words - 1) |-> {p \in 0..(W - 1) : w * W + p >= own}]
Alloc(i, u, n) == /\ Open(u, n) /\ i \notin DOMAIN live
                  /\ free' = [free EXCEPT ![u \div W] = @ \ Places(u, n)]
                  /\ live' = [j \in DOMAIN live \cup {i} |-> IF j = i THEN [at |-> u, n |-> n] ELSE live[j]]
                  /\ UNCHANGED <<nw, hdr>>
Free(i) == /\ i \in DOMAIN live
           /\ free' = [free EXCEPT ![live[i].at \div W] = @ \cup Places(live[i].at, live[i].n)]
           /\ live' = [j \in DOMAIN live \ {i} |-> live[j]]
           /\ UNCHANGED <<nw, hdr>>
RECURSIVE Sum(_)
Sum(w) == IF w < 0 THEN 0 ELSE Cardinality(free[w]) + Sum(w - 1)
FreeUnits == Sum(nw - 1)
Empty == live = [i \in {} |-> 0]
Full == \A w \in Words : free[w] = {}
---------------------------------------------------------------------------
UnitsOf(i) == live[i].at..(live[i].at + live[i].n - 1)
Inside == \A i \in DOMAIN live : live[i].at >= hdr /\ live[i].at + live[i].n <= nw * W
Apart == \A i, j \in DOMAIN live : i # j => UnitsOf(i) \cap UnitsOf(j) = {}
(* nothing is lost: what is neither the heap's own nor allocated is free *)
Whole == \A w \in Words : free[w] = {p \in 0..(W - 1) : w * W + p >= hdr /\ \A i \in DOMAIN live : w * W + p \notin UnitsOf(i)}
=============================================================================
