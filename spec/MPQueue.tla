------------------------------ MODULE MPQueue ------------------------------
(* A circular queue with several producers and consumers.  Entries take the  *)
(* ring's places in turn; a place is free again once its entry, handed to a  *)
(* consumer, has been given back.  Entries may be given back in any order.   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES n,      \* places in the ring
          nx,     \* the place whose turn it is
          q,      \* entries allocated and not yet handed out, oldest first
          held    \* entries handed out and not yet given back
Places == {q[k].p : k \in 1..Len(q)} \cup {h.p : h \in held}
Room == nx \notin Places
Ready == q # <<>> /\ q[1].done
Idx(i) == CHOOSE k \in 1..Len(q) : q[k].i = i
InQ(i) == \E k \in 1..Len(q) : q[k].i = i
Alloc(i, at) == Room /\ ~InQ(i) /\ q' = Append(q, [i |-> i, p |-> nx, at |-> at, done |-> FALSE]) /\ nx' = (nx + 1) % n /\ UNCHANGED <<n, held>>
Complete(i) == InQ(i) /\ q' = [q EXCEPT ![Idx(i)].done = TRUE] /\ UNCHANGED <<n, nx, held>>
Get == Ready /\ held' = held \cup {[i |-> q[1].i, p |-> q[1].p, at |-> q[1].at]} /\ q' = Tail(q) /\ UNCHANGED <<n, nx>>
Free(i) == (\E h \in held : h.i = i) /\ held' = {h \in held : h.i # i} /\ UNCHANGED <<n, nx, q>>
Reset == q' = <<>> /\ held' = {} /\ nx' = 0 /\ UNCHANGED n
(* places that can be allocated in a row *)
Run == IF Places = {} THEN n ELSE LET d(p) == (p - nx + n) % n IN d(CHOOSE p \in Places : \A r \in Places : d(p) <= d(r))
---------------------------------------------------------------------------
(* no place serves two entries, and the entries that wait stand in the ring  *)
(* one after the other, up to the place whose turn it is                     *)
Exclusive == Cardinality(Places) = Len(q) + Cardinality(held)
InTurn == \A k \in 1..Len(q) : q[k].p = (nx - 1 - Len(q) + k + n) % n
=============================================================================
