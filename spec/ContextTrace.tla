---------------------------- MODULE ContextTrace ----------------------------
EXTENDS Context, TraceBase
Same == UNCHANGED cvars
VARIABLE space0      \* id -> free space of the context when it was empty
Keep == UNCHANGED space0
Yes == Ev.r = 1
Tight == Ev.t = 1
RECURSIVE Need(_, _)
Len16(n) == ((n + 1 + 15) \div 16) * 16
Need(S, len) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN Len16(len[n]) + 32 + Need(S \ {n}, len)
TInit == CInit /\ l = 1 /\ space0 = <<>>
TNext ==
  \/ Is("reset") /\ cx' = <<>> /\ proj' = <<>> /\ cur' = <<>> /\ space0' = <<>>
  \/ Is("join") /\ Join(Ev.p) /\ Keep
  \/ Is("create") /\ Create(Ev.c) /\ space0' = (Ev.c :> Ev.free) @@ space0
  \/ Is("add") /\ Add(Ev.c, Ev.n, Ev.a, Yes, Tight) /\ Keep
  \/ Is("rmn") /\ RemoveName(Ev.c, Ev.n, Yes) /\ Keep
  \/ Is("rma") /\ RemoveAddr(Ev.c, Ev.a, Yes) /\ Keep
  \/ Is("ren") /\ Rename(Ev.c, Ev.n, Ev.m, Ev.a, Yes, Tight) /\ Keep
  \/ Is("fbn") /\ Ev.a = Lookup(cx[Ev.c], Ev.n) /\ Same /\ Keep
  \/ Is("fba") /\ Ev.n = NameOf(Ev.c, Ev.a) /\ Same /\ Keep
  \/ Is("names") /\ Ev.up = 1 /\ Len(Ev.l) = Cardinality(Dom(Ev.c)) /\ {Ev.l[i] : i \in 1..Len(Ev.l)} = Dom(Ev.c) /\ Same /\ Keep
     \* an empty context has all its space; otherwise no more is gone than its names need
  \/ Is("space") /\ Ev.c \in DOMAIN cx /\ Same /\ Keep
     /\ IF Dom(Ev.c) = {} THEN Ev.free = space0[Ev.c]
        ELSE Ev.free < space0[Ev.c] /\ Ev.free >= space0[Ev.c] - Need(Dom(Ev.c), [n \in Dom(Ev.c) |-> Ev.len[n]])
  \/ Is("destroy") /\ Yes /\ Destroy(Ev.c) /\ Keep
  \/ Is("setup") /\ Setup(Ev.p, Ev.n, Ev.c, Ev.alt = 1)
     /\ IF Ev.c \in DOMAIN cx THEN Ev.cnt = Cardinality(Dom(Ev.c)) /\ Keep ELSE Ev.cnt = 0 /\ space0' = (Ev.c :> Ev.free) @@ space0
  \/ Is("prem") /\ RemoveProject(Ev.p, Ev.n, Ev.c) /\ Keep
  \/ Is("pdel") /\ DestroyProject(Ev.p, Ev.n, Yes) /\ Keep
  \/ Is("pget") /\ ByName(Ev.n, Ev.c) /\ Keep
  \/ Is("pcur") /\ Current(Ev.p, Ev.c) /\ Keep
  \/ Is("store") /\ Ev.same = 1 /\ cx = <<>> /\ Same /\ Keep
=============================================================================
