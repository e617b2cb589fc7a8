----------------------------- MODULE SortedMap -----------------------------
(* Sorted maps (the binary-key index and the string B-tree) and enumerations *)
(* over them.  Keys are the ranks 0..n-1 of a sorted universe; a map is a    *)
(* function from ranks to values, 0 standing for an absent key.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES maps,    \* id -> [0..n-1 -> value or 0]
          enums    \* id -> [m: map id, cur: rank last returned (start - 1 before the first step), more: was there more at the last step]
mvars == <<maps, enums>>
MapInit == maps = <<>> /\ enums = <<>>
Keys(m) == DOMAIN maps[m]
Has(m, k) == maps[m][k] # 0
Present(m) == {k \in Keys(m) : Has(m, k)}
Empty(m) == \A k \in Keys(m) : ~Has(m, k)
IsMin(m, k) == IF k < 0 THEN Empty(m) ELSE Has(m, k) /\ \A x \in 0..(k - 1) : ~Has(m, x)
IsMax(m, k) == IF k < 0 THEN Empty(m) ELSE Has(m, k) /\ \A x \in Keys(m) : x > k => ~Has(m, x)
Above(m, c) == \E k \in (c + 1)..(Cardinality(Keys(m)) - 1) : Has(m, k)

NewMap(m, n) == maps' = (m :> [k \in 0..(n - 1) |-> 0]) @@ maps /\ UNCHANGED enums
DropMap(m) == maps' = [x \in DOMAIN maps \ {m} |-> maps[x]] /\ enums' = [x \in {y \in DOMAIN enums : enums[y].m # m} |-> enums[x]]
Put(m, k, v) == ~Has(m, k) /\ v # 0 /\ maps' = [maps EXCEPT ![m][k] = v] /\ UNCHANGED enums
PutRefused(m, k) == Has(m, k) /\ UNCHANGED mvars
Replace(m, k, v, old) == Has(m, k) /\ old = maps[m][k] /\ maps' = [maps EXCEPT ![m][k] = v] /\ UNCHANGED enums
Remove(m, k, old) == Has(m, k) /\ old = maps[m][k] /\ maps' = [maps EXCEPT ![m][k] = 0] /\ UNCHANGED enums
Absent(m, k) == ~Has(m, k) /\ UNCHANGED mvars
(* enumerations; c = start rank - 1 *)
EnumStart(en, m, c) == enums' = (en :> [m |-> m, cur |-> c, more |-> Above(m, c)]) @@ enums /\ UNCHANGED maps
EnumStep(en, k, v) ==
  LET q == enums[en] IN
  /\ k > q.cur /\ Has(q.m, k) /\ maps[q.m][k] = v
  /\ \A x \in (q.cur + 1)..(k - 1) : ~Has(q.m, x)
  /\ enums' = [enums EXCEPT ![en] = [@ EXCEPT !.cur = k, !.more = Above(q.m, k)]]
  /\ UNCHANGED maps
EnumEnd(en) ==
  /\ ~Above(enums[en].m, enums[en].cur)
  /\ enums' = [enums EXCEPT ![en] = [@ EXCEPT !.more = FALSE]]
  /\ UNCHANGED maps
EnumDrop(en) == enums' = [x \in DOMAIN enums \ {en} |-> enums[x]] /\ UNCHANGED maps
=============================================================================
