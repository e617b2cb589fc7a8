----------------------------- MODULE MC_Projects -----------------------------
(* project contexts: a few processes, project names and contexts *)
EXTENDS Context, Json
CONSTANTS Procs, PNames, Ids
VARIABLE hist
Init == CInit /\ hist = <<>>
H(o) == hist' = Append(hist, o)
NewId == CHOOSE c \in Ids : c \notin DOMAIN cx /\ \A d \in Ids : d < c => d \in DOMAIN cx
Fresh(n) == IF n \in DOMAIN proj THEN proj[n] ELSE NewId
Next ==
  \/ \E p \in Procs : p \notin DOMAIN cur /\ (\A q \in Procs : q < p => q \in DOMAIN cur) /\ Join(p) /\ H(<<"J", p>>)
  \/ \E p \in DOMAIN cur : Join(p) /\ H(<<"J", p>>)
  \/ \E p \in DOMAIN cur, n \in PNames : (\E c \in Ids : c \notin DOMAIN cx) /\
       \/ Setup(p, n, Fresh(n), FALSE) /\ H(<<"S", p, n>>)
       \/ Setup(p, n, Fresh(n), TRUE) /\ H(<<"L", p, n>>)
  \/ \E p \in DOMAIN cur, n \in PNames : RemoveProject(p, n, Lookup(proj, n)) /\ H(<<"V", p, n>>)
  \/ \E p \in DOMAIN cur, n \in PNames : DestroyProject(p, n, n \in DOMAIN proj) /\ H(<<"D", p, n>>)
View == cvars
EmitAll == PrintT(<<"SCRIPT", ToJson(hist')>>)
=============================================================================
