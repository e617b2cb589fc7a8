------------------------------- MODULE Blocks -------------------------------
(* The block allocator.  Addresses and sizes are in pages; the region is     *)
(* NSeg segments of Seg pages, the first Meta pages of segment 0 hold the    *)
(* allocator's own data.  F: space given back by callers, U: space of        *)
(* created segments never handed out; both are kept as the largest aligned   *)
(* power-of-two blocks.  Which of the fitting free blocks is used is left    *)
(* open; that freed space is used before new space is, and new space before  *)
(* a new segment, is not.                                                    *)
EXTENDS Integers, FiniteSets, TLC, Folds
CONSTANTS Seg, NSeg, Meta
VARIABLES live, F, U, segs
bvars == <<live, F, U, segs>>
RECURSIVE Insert(_, _, _)
Buddy(a, s) == IF (a \div s) % 2 = 0 THEN a + s ELSE a - s
Insert(S, a, s) == IF <<Buddy(a, s), s>> \in S
                   THEN Insert(S \ {<<Buddy(a, s), s>>}, IF Buddy(a, s) < a THEN Buddy(a, s) ELSE a, 2 * s)
                   ELSE S \cup {<<a, s>>}
Holds(b, a, s) == b[1] <= a /\ a + s <= b[1] + b[2]
RECURSIVE Halve(_, _, _)
Halve(b, a, s) == IF b[2] = s THEN {}       \* what is left of b when <<a, s>> is taken out of it
                  ELSE LET h == b[2] \div 2 IN
                       IF a < b[1] + h THEN {<<b[1] + h, h>>} \cup Halve(<<b[1], h>>, a, s)
                       ELSE {<<b[1], h>>} \cup Halve(<<b[1] + h, h>>, a, s)
Cut(S, a, s) == LET b == CHOOSE b \in S : Holds(b, a, s) IN (S \ {b}) \cup Halve(b, a, s)
Has(S, a, s) == \E b \in S : Holds(b, a, s)
Fits(S, s) == \E b \in S : b[2] >= s
Apart(b, a, s) == b[1] + b[2] <= a \/ a + s <= b[1]
Aligned(a, s) == a % s = 0
Canon(S, acc) == MapThenFoldSet(LAMBDA b, T : Insert(T, b[1], b[2]), acc, LAMBDA b : b, LAMBDA T : CHOOSE b \in T : TRUE, S)

BInit == live = {} /\ F = {} /\ segs = {0} /\ U = Cut({<<0, Seg>>}, 0, Meta)
Mine(a, s) == live' = live \cup {<<a, s>>}
AllocF(a, s) == Aligned(a, s) /\ Has(F, a, s) /\ F' = Cut(F, a, s) /\ Mine(a, s) /\ UNCHANGED <<U, segs>>
AllocU(a, s) == Aligned(a, s) /\ ~Fits(F, s) /\ Has(U, a, s) /\ U' = Cut(U, a, s) /\ Mine(a, s) /\ UNCHANGED <<F, segs>>
AllocG(a, s) == /\ Aligned(a, s) /\ ~Fits(F, s) /\ ~Fits(U, s) /\ s <= Seg
                /\ LET g == a \div Seg IN /\ g \notin segs /\ g < NSeg /\ segs' = segs \cup {g}
                                          /\ U' = Cut(Insert(U, g * Seg, Seg), a, s)
                /\ Mine(a, s) /\ UNCHANGED F
Alloc(a, s) == AllocF(a, s) \/ AllocU(a, s) \/ AllocG(a, s)
(* refused: too large for any segment, or nothing fits and no segment can be had (broken: the system refuses one) *)
AllocFail(s, broken) == /\ s > Seg \/ (~Fits(F, s) /\ ~Fits(U, s) /\ (broken \/ Cardinality(segs) = NSeg))
                        /\ UNCHANGED bvars
Free(a, s) == <<a, s>> \in live /\ live' = live \ {<<a, s>>} /\ F' = Insert(F, a, s) /\ UNCHANGED <<U, segs>>
(* exclusivity alone, for any policy *)
AllocAny(a, s) == /\ Aligned(a, s) /\ a >= Meta /\ (a + s - 1) \div Seg < NSeg /\ s <= Seg
                  /\ \A b \in live : Apart(b, a, s)
                  /\ Mine(a, s) /\ UNCHANGED <<F, U, segs>>
FreeAny(a, s) == <<a, s>> \in live /\ live' = live \ {<<a, s>>} /\ UNCHANGED <<F, U, segs>>
---------------------------------------------------------------------------
Sum(S) == MapThenFoldSet(LAMBDA x, y : x + y, 0, LAMBDA b : b[2], LAMBDA T : CHOOSE b \in T : TRUE, S)
Exclusive == /\ \A b, c \in live : b # c => Apart(b, c[1], c[2])
             /\ \A b \in live : Aligned(b[1], b[2]) /\ b[1] >= Meta /\ b[1] \div Seg \in segs
Conserved == Sum(live) + Sum(F) + Sum(U) + Meta = Seg * Cardinality(segs)
FreeApart == \A b \in F, c \in U \cup live : Apart(b, c[1], c[2])
Merged == \A S \in {F, U} : \A b \in S : <<Buddy(b[1], b[2]), b[2]>> \notin S
=============================================================================
