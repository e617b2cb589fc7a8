------------------------------- MODULE Context -------------------------------
(* Contexts: each keeps a one-to-one correspondence between names and        *)
(* addresses; project contexts are contexts registered by name for every     *)
(* process.  Names, addresses and contexts are numbers; 0 means "none".      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cx,     \* live contexts: id -> (name -> address)
          proj,   \* project name -> context
          cur     \* process -> its current project context (0: none)
cvars == <<cx, proj, cur>>
Dom(c) == DOMAIN cx[c]
Ran(f) == {f[x] : x \in DOMAIN f}
Less(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Lookup(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
NameOf(c, a) == IF \E n \in Dom(c) : cx[c][n] = a THEN CHOOSE n \in Dom(c) : cx[c][n] = a ELSE 0

CInit == cx = <<>> /\ proj = <<>> /\ cur = <<>>
NewCtx(c) == c \notin DOMAIN cx /\ c > 0 /\ cx' = (c :> <<>>) @@ cx
Create(c) == NewCtx(c) /\ UNCHANGED <<proj, cur>>
Set(c, f) == cx' = [cx EXCEPT ![c] = f] /\ UNCHANGED <<proj, cur>>
(* the result says whether the pair was added; tight: the context may be out of space *)
Add(c, n, a, ok, tight) ==
  /\ c \in DOMAIN cx
  /\ LET free == n \notin Dom(c) /\ a \notin Ran(cx[c])
     IN IF ok THEN free /\ Set(c, (n :> a) @@ cx[c])
        ELSE (~free \/ tight) /\ UNCHANGED cvars
RemoveName(c, n, ok) ==
  /\ c \in DOMAIN cx /\ (ok <=> n \in Dom(c))
  /\ IF ok THEN Set(c, Less(cx[c], n)) ELSE UNCHANGED cvars
RemoveAddr(c, a, ok) ==
  /\ c \in DOMAIN cx /\ (ok <=> a \in Ran(cx[c]))
  /\ IF ok THEN Set(c, Less(cx[c], NameOf(c, a))) ELSE UNCHANGED cvars
(* a rename to itself may be reported either way; nothing changes *)
Rename(c, n, m, a, ok, tight) ==
  /\ c \in DOMAIN cx
  /\ LET fits == n \in Dom(c) /\ cx[c][n] = a
         free == m \notin Dom(c)
     IN \/ fits /\ free /\ ok /\ Set(c, (m :> a) @@ Less(cx[c], n))
        \/ fits /\ m = n /\ UNCHANGED cvars
        \/ ~ok /\ (~fits \/ ~free \/ tight) /\ UNCHANGED cvars
Destroy(c) == /\ c \in DOMAIN cx /\ c \notin Ran(proj)
              /\ cx' = Less(cx, c) /\ UNCHANGED <<proj, cur>>
(* projects *)
Join(p) == cur' = (p :> 0) @@ cur /\ UNCHANGED <<cx, proj>>
Setup(p, n, c, alt) ==
  /\ p \in DOMAIN cur
  /\ \/ n \in DOMAIN proj /\ c = proj[n] /\ UNCHANGED <<cx, proj>>
     \/ n \notin DOMAIN proj /\ NewCtx(c) /\ proj' = (n :> c) @@ proj
  /\ cur' = IF alt THEN cur ELSE [cur EXCEPT ![p] = c]
Forget(p, c) == cur' = [cur EXCEPT ![p] = IF @ = c THEN 0 ELSE @]
RemoveProject(p, n, c) ==
  /\ c = Lookup(proj, n)
  /\ IF c = 0 THEN UNCHANGED cvars
     ELSE proj' = Less(proj, n) /\ Forget(p, c) /\ UNCHANGED cx
DestroyProject(p, n, ok) ==
  /\ ok <=> n \in DOMAIN proj
  /\ IF ~ok THEN UNCHANGED cvars
     ELSE /\ proj' = Less(proj, n) /\ cx' = Less(cx, proj[n]) /\ Forget(p, proj[n])
ByName(n, c) == c = Lookup(proj, n) /\ UNCHANGED cvars
(* what a process takes for its current project is its own; once another process has destroyed it, it means nothing *)
Current(p, c) == ((cur[p] = 0 \/ cur[p] \in DOMAIN cx) => c = cur[p]) /\ UNCHANGED cvars
---------------------------------------------------------------------------
OneToOne == \A c \in DOMAIN cx : \A n, m \in Dom(c) : n # m => cx[c][n] # cx[c][m]
ProjectsLive == \A n \in DOMAIN proj : proj[n] \in DOMAIN cx
ProjectsApart == \A n, m \in DOMAIN proj : n # m => proj[n] # proj[m]
=============================================================================
