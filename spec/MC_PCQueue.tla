----------------------------- MODULE MC_PCQueue -----------------------------
EXTENDS PCQueue, Json
CONSTANT Cap
VARIABLES nx,      \* next identity
          hist     \* the calls so far
vars == <<cap, q, nx, hist>>
Init == cap = Cap /\ q = <<>> /\ nx = 0 /\ hist = <<>>
(* places are taken round the ring, one more than there may be entries *)
Place == (nx % (Cap + 1))
DoAlloc == /\ hist' = Append(hist, "A")
           /\ IF Room THEN Alloc(nx, Place, FALSE, 0, 0) /\ nx' = nx + 1 ELSE UNCHANGED <<cap, q, nx>>
DoDone(k) == /\ k \in 1..Len(q) /\ ~q[k].done /\ Complete(q[k].i) /\ hist' = Append(hist, "C " \o ToString(k - 1)) /\ UNCHANGED nx
DoGet == hist' = Append(hist, "G") /\ UNCHANGED <<cap, q, nx>>
DoFree == /\ hist' = Append(hist, "F") /\ UNCHANGED nx /\ IF Ready THEN Free ELSE UNCHANGED <<cap, q>>
DoReset == Reset /\ hist' = Append(hist, "R") /\ nx' = 0
Next == DoAlloc \/ (\E k \in 1..Cap : DoDone(k)) \/ DoGet \/ DoFree \/ DoReset
(* entries leave in the order they came *)
Order == \A k \in 1..(Len(q) - 1) : q[k].i < q[k + 1].i
Leaves == [][q' # q => \/ (q # <<>> /\ q' = Tail(q)) \/ q' = <<>> \/ Len(q') = Len(q) + 1 \/ Len(q') = Len(q)]_vars
View == <<cap, [k \in 1..Len(q) |-> [q[k] EXCEPT !.i = k]], nx % (Cap + 1)>>
EmitAll == PrintT(<<"SCRIPT", ToJson(hist')>>)
=============================================================================
