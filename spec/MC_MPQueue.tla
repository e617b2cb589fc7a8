----------------------------- MODULE MC_MPQueue -----------------------------
EXTENDS MPQueue, Json, TLC
CONSTANT Cap
VARIABLES ids,     \* next identity
          hist
vars == <<n, nx, q, held, ids, hist>>
Init == n = Cap /\ nx = 0 /\ q = <<>> /\ held = {} /\ ids = 1 /\ hist = <<>>
Rank(h) == Cardinality({g \in held : g.i <= h.i})
DoAlloc == /\ hist' = Append(hist, <<"A">>)
           /\ IF Room THEN Alloc(ids, 0) /\ ids' = ids + 1 ELSE UNCHANGED <<n, nx, q, held, ids>>
DoDone(k) == k \in 1..Len(q) /\ ~q[k].done /\ Complete(q[k].i) /\ hist' = Append(hist, <<"C", k - 1>>) /\ UNCHANGED ids
DoGet == hist' = Append(hist, <<"G">>) /\ UNCHANGED ids /\ IF Ready THEN Get ELSE UNCHANGED <<n, nx, q, held>>
DoFree(h) == h \in held /\ Free(h.i) /\ hist' = Append(hist, <<"F", Rank(h) - 1>>) /\ UNCHANGED ids
DoReset == Reset /\ hist' = Append(hist, <<"R">>) /\ UNCHANGED ids
Next == DoAlloc \/ (\E k \in 1..Cap : DoDone(k)) \/ DoGet \/ (\E h \in held : DoFree(h)) \/ DoReset
Order == /\ \A k \in 1..(Len(q) - 1) : q[k].i < q[k + 1].i
         /\ q # <<>> => \A h \in held : h.i < q[1].i
(* the order in which entries were allocated, without their identities *)
View == <<nx, [k \in 1..Len(q) |-> [p |-> q[k].p, done |-> q[k].done]], {<<h.p, Rank(h)>> : h \in held}>>
EmitAll == PrintT(<<"SCRIPT", ToJson(hist')>>)
=============================================================================
