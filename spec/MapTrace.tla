----------------------------- MODULE MapTrace ------------------------------
EXTENDS SortedMap, TraceBase
Same == UNCHANGED mvars
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
KeyOf(v) == v \div 256      \* the driver stores the rank of the key in every value
(* a run of steps of one enumeration: every value is that of the next key, none is left out *)
Run(en, vs) ==
  LET q == enums[en] n == Len(vs) last == KeyOf(vs[n]) IN
  /\ \A i \in 1..n : KeyOf(vs[i]) \in Keys(q.m) /\ maps[q.m][KeyOf(vs[i])] = vs[i]
  /\ KeyOf(vs[1]) > q.cur /\ \A i \in 1..(n - 1) : KeyOf(vs[i]) < KeyOf(vs[i + 1])
  /\ Cardinality({x \in (q.cur + 1)..last : Has(q.m, x)}) = n
  /\ enums' = [enums EXCEPT ![en] = [@ EXCEPT !.cur = last, !.more = Above(q.m, last)]]
  /\ UNCHANGED maps
TInit == MapInit /\ l = 1
TNext ==
  \/ Is("reset") /\ maps' = <<>> /\ enums' = <<>>
  \/ Is("mk") /\ Ev.ok = 1 /\ NewMap(Ev.m, Ev.n)
  \/ Is("put") /\ (IF Ev.rc = 1 THEN Put(Ev.m, Ev.k, Ev.v) ELSE Ev.rc = 0 /\ PutRefused(Ev.m, Ev.k))
  \/ Is("rep") /\ (IF Ev.old # 0 THEN Replace(Ev.m, Ev.k, Ev.v, Ev.old) ELSE Absent(Ev.m, Ev.k))
  \/ Is("rem") /\ (IF Ev.old # 0 THEN Remove(Ev.m, Ev.k, Ev.old) ELSE Absent(Ev.m, Ev.k))
  \/ Is("get") /\ Ev.r = maps[Ev.m][Ev.k] /\ Same
  \/ Is("has") /\ Ev.r = (IF Has(Ev.m, Ev.k) THEN 1 ELSE 0) /\ Same
  \/ Is("empty") /\ Ev.r = (IF Empty(Ev.m) THEN 1 ELSE 0) /\ Same
  \/ Is("count") /\ Ev.r = Cardinality(Present(Ev.m)) /\ Same
  \/ Is("min") /\ Ev.k >= -1 /\ IsMin(Ev.m, Ev.k) /\ Same
  \/ Is("max") /\ Ev.k >= -1 /\ IsMax(Ev.m, Ev.k) /\ Same
  \/ Is("enum") /\ EnumStart(Ev.en, Ev.m, Ev.start - 1)
  \/ Is("noenum") /\ ~Above(Ev.m, Ev.start - 1) /\ Same    \* refused: only when nothing is at or above the start
  \/ Is("next") /\ (IF Ev.v = 0 THEN EnumEnd(Ev.en) ELSE EnumStep(Ev.en, KeyOf(Ev.v), Ev.v))
  \/ Is("run") /\ Run(Ev.en, Ev.vs)
  \/ Is("more") /\ (\/ Ev.r = (IF enums[Ev.en].more THEN 1 ELSE 0)
                    \/ Ev.r = (IF Above(enums[Ev.en].m, enums[Ev.en].cur) THEN 1 ELSE 0)) /\ Same
  \/ Is("cur") /\ Ev.k = enums[Ev.en].cur /\ Same
  \/ Is("drop") /\ EnumDrop(Ev.en)
  \/ Is("cmp") /\ Ev.r = Sgn(Ev.a - Ev.b) /\ Same
  \/ Is("back") /\ Ev.ok = 1 /\ Same
  \/ Is("del") /\ DropMap(Ev.m)
=============================================================================
