---------------------------- MODULE OwnersTrace ----------------------------
(* Traces of objects of every kind being made, destroyed and asked for by    *)
(* interior addresses.  Addresses and sizes are in units of 512 bytes.       *)
(* Kinds: h heap, c compound heap, p page of one, k stack, l lock-free heap, *)
(* r raw block (owns nothing itself), x anything else; t: an object whose    *)
(* inner structure is its own business (index, string b-tree, context).     *)
EXTENDS Owners, TraceBase
vars == <<objs, l>>
Own(x) == {o \in Over(x) : o.k.k # "r"}
Mine(x) == Inner(Own(x))
FindOk(x, r) == Own(x) # {} => IF Mine(x).k.k = "t" THEN In(Mine(x), r) ELSE r = Mine(x).a
Kind(x, k) == Own(x) # {} /\ Mine(x).k.k \in k
NearKind(f) == CASE f = "heap" -> {"h", "p"} [] f = "lock" -> {"l"}
Near(f, x, r) == IF Kind(x, {"t"}) THEN TRUE ELSE IF Kind(x, NearKind(f)) THEN r = Mine(x).a ELSE Own(x) # {} => r = -1
(* memory taken from (given back to) the heap found through x: r is where, own the only object whose free space changed *)
Taken(x, r, own) == Own(x) # {} => (r = -1 /\ own = -1) \/ (In(Mine(x), r) /\ own = Mine(x).a)
Given(x, own) == own = Mine(x).a
Same == UNCHANGED objs
TInit == objs = {} /\ l = 1
TNext ==
  \/ Is("reset") /\ objs' = {}
  \/ Is("new") /\ New([k |-> Ev.k, f |-> Ev.f], Ev.a, Ev.s)
  \/ Is("gone") /\ Gone(Ev.a, Ev.s)
  \/ Is("find") /\ FindOk(Ev.x, Ev.r) /\ Same
  \/ Is("near") /\ Near(Ev.f, Ev.x, Ev.r) /\ Same
  \/ Is("take") /\ Taken(Ev.x, Ev.r, Ev.own) /\ Same
  \/ Is("give") /\ Given(Ev.x, Ev.own) /\ Same
  \/ Is("page") /\ Ev.fam = Mine(Ev.x).k.f /\ Same      \* a page got or given back through x belongs to the compound heap x is in
=============================================================================
