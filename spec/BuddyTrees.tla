----------------------------- MODULE BuddyTrees -----------------------------
(* The allocator's algorithm: trees of (size, offset) keys for the freed,    *)
(* the never used and the used space; an allocation takes the first key not  *)
(* below (size, 0) and gives the upper halves back, a free merges with its   *)
(* buddy while that is there; used blocks are kept merged too, and taken out *)
(* of a merged entry by splitting it.  Every operation is a step of Blocks   *)
(* and the used tree always covers exactly what is live.                     *)
EXTENDS Blocks, Sequences, Json
CONSTANTS Sizes, MaxLive, MaxHist
VARIABLES tf, tu, tr, tx, order, hist     \* freed, never used, free region, used; live blocks by age
tvars == <<tf, tu, tr, tx>>
Key(b) == b[2] * (Seg * NSeg) + b[1]
First(T, s) == LET C == {b \in T : b[2] >= s} IN IF C = {} THEN <<>> ELSE CHOOSE b \in C : \A c \in C : Key(b) <= Key(c)
RECURSIVE Uppers(_, _, _)
Uppers(a, n, s) == IF n = s THEN {} ELSE {<<a + n \div 2, n \div 2>>} \cup Uppers(a, n \div 2, s)
Take(T, b, s) == (T \ {b}) \cup Uppers(b[1], b[2], s)
(* p2RemUsed: the entry itself, or the first larger aligned entry around it, split *)
RECURSIVE Around(_, _, _)
Around(T, a, s) == IF <<(a \div s) * s, s>> \in T THEN <<(a \div s) * s, s>> ELSE Around(T, a, 2 * s)
Unuse(T, a, s) == LET b == Around(T, a, s) IN (T \ {b}) \cup Halve(b, a, s)
TInit == /\ BInit /\ tf = {} /\ tu = Uppers(0, Seg, Meta) /\ tx = {<<0, Meta>>} /\ order = <<>> /\ hist = <<>>
         /\ tr = Uppers(0, Seg * NSeg, Seg)
H(o) == hist' = IF MaxHist > 0 THEN Append(hist, o) ELSE hist
Got(b, s) == tx' = Insert(tx, b[1], s) /\ order' = Append(order, <<b[1], s>>) /\ Alloc(b[1], s) /\ H(<<"A", s>>)
DoAlloc(s) ==
  /\ Len(order) < MaxLive
  /\ IF First(tf, s) # <<>> THEN LET b == First(tf, s) IN tf' = Take(tf, b, s) /\ Got(b, s) /\ UNCHANGED <<tu, tr>>
     ELSE IF First(tu, s) # <<>> THEN LET b == First(tu, s) IN tu' = Take(tu, b, s) /\ Got(b, s) /\ UNCHANGED <<tf, tr>>
     ELSE IF First(tr, Seg) # <<>> THEN
          LET g == First(tr, Seg)  t2 == Insert(tu, g[1], Seg)  b == First(t2, s)
          IN tr' = Take(tr, g, Seg) /\ tu' = Take(t2, b, s) /\ Got(b, s) /\ UNCHANGED tf
     ELSE UNCHANGED <<tvars, order>> /\ AllocFail(s, FALSE) /\ H(<<"A", s>>)
Without(i) == SubSeq(order, 1, i - 1) \o SubSeq(order, i + 1, Len(order))
DoFree(i) == LET a == order[i][1]  s == order[i][2] IN
  /\ tx' = Unuse(tx, a, s) /\ tf' = Insert(tf, a, s) /\ order' = Without(i) /\ Free(a, s) /\ UNCHANGED <<tu, tr>> /\ H(<<"F", i - 1>>)
Next == (\E s \in Sizes : DoAlloc(s)) \/ (\E i \in 1..Len(order) : DoFree(i))
(* scripts name blocks by age; what decides the future is the trees and who is oldest *)
View == <<tvars, order, live, F, U, segs>>
View2 == <<tvars, live>>
Refined == tf = F /\ tu = U
UsedExact == tx = Canon(live \cup {<<0, Meta>>}, {})
RegionRest == Sum(tr) = Seg * (NSeg - Cardinality(segs)) /\ \A b \in tr : \A g \in segs : Apart(b, g * Seg, Seg)
CanAlloc == \A s \in Sizes : Len(order) < MaxLive => ENABLED DoAlloc(s)      \* its choice is always one Blocks admits
EmitAll == PrintT(<<"SCRIPT", ToJson(hist')>>)
=============================================================================
