----------------------------- MODULE StoreTrace -----------------------------
(* Traces of one store used by several processes: the block allocator, the   *)
(* registered root object, joining, leaving, resetting and removing.         *)
EXTENDS Blocks, Sequences, TraceBase
CONSTANT Strict        \* FALSE: only what exclusivity needs
VARIABLES up, root
Same == UNCHANGED bvars
Env == UNCHANGED <<up, root>>
Fresh == live' = {} /\ F' = {} /\ segs' = {0} /\ U' = Cut({<<0, Seg>>}, 0, Meta)
Set(s) == {s[i] : i \in 1..Len(s)}
Is2(S, s) == Len(s) = Cardinality(S) /\ Set(s) = S
Ok == Ev.ok = 1
Disjoint(S) == \A b, c \in S : b # c => Apart(b, c[1], c[2])
Lists == /\ Is2(F, Ev.F) /\ Is2(U, Ev.U)
         /\ Is2({<<g, 1>> : g \in segs}, Ev.S)
         /\ LET R == Set(Ev.R)  X == Set(Ev.X)  used == live \cup {<<0, Meta>>}
            IN /\ Disjoint(R) /\ Sum(R) = NSeg - Cardinality(segs) /\ \A b \in R : \A g \in segs : Apart(b, g, 1)
               /\ Disjoint(X) /\ Sum(X) = Sum(used) /\ \A b \in used : Has(X, b[1], b[2])
TInit == BInit /\ up = {} /\ root = 0 /\ l = 1
TNext ==
  \/ Is("reset") /\ Fresh /\ up' = {} /\ root' = 0
  \/ Is("join") /\ Ok /\ Ev.p \notin up /\ up' = up \cup {Ev.p} /\ UNCHANGED root /\ Same
  \/ Is("leave") /\ Ev.p \in up /\ up' = up \ {Ev.p} /\ UNCHANGED root /\ Same
  \/ Is("remove") /\ Ev.files = 0 /\ up = {Ev.p} /\ up' = {} /\ root' = 0 /\ Fresh
  \/ Is("wipe") /\ Ev.files = 1 /\ up = {Ev.p} /\ root' = 0 /\ UNCHANGED up /\ Fresh
  \/ Is("alloc") /\ Ev.p \in up /\ (IF Strict THEN Alloc(Ev.a, Ev.s) ELSE AllocAny(Ev.a, Ev.s)) /\ Env
  \/ Is("allocfail") /\ (IF Strict THEN AllocFail(Ev.s, Ev.broken = 1) ELSE Same) /\ Env
  \/ Is("free") /\ Ev.p \in up /\ (IF Strict THEN Free(Ev.a, Ev.s) ELSE FreeAny(Ev.a, Ev.s)) /\ Env
  \/ Is("chk") /\ Ok /\ Same /\ Env            \* every live block holds what was written to it
  \/ Is("excl") /\ Ok /\ Same /\ Env           \* while one thread has seized the region no other can
  \/ Is("lists") /\ (Strict => Lists) /\ Same /\ Env
  \/ Is("setroot") /\ root' = Ev.v /\ UNCHANGED up /\ Same
  \/ Is("getroot") /\ Ev.v = root /\ Same /\ Env
  \/ Is("steady") /\ (Strict => Ev.ok = 1) /\ Same /\ Env    \* a repeated workload leaves the allocator's own data and the store the size they were
ExclusiveS == \A b \in live : Aligned(b[1], b[2]) /\ b[1] >= Meta
ConservedS == Strict => Conserved
=============================================================================
