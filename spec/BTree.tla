-------------------------------- MODULE BTree --------------------------------
(* The B-tree algorithm of the index and string-tree nodes (split on the way  *)
(* up, successor replacement, move left/right, combine), for a small fan-out. *)
(* It refines the sorted set of keys; its transitions are replayed into the   *)
(* real code compiled with the same fan-out.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxK          \* key ranks 0..N-1; most keys in a node
VARIABLES tree, set, hist  \* set: the specified contents
Min == MaxK \div 2
Nil == [k |-> <<>>, c |-> <<>>]
Leaf(t) == t.c = <<>>
RECURSIVE KeysOf(_), Inorder(_), Depth(_), Shape(_, _)
KeysOf(t) == {t.k[i] : i \in 1..Len(t.k)} \cup UNION {KeysOf(t.c[i]) : i \in 1..Len(t.c)}
Inorder(t) == IF Leaf(t) THEN t.k ELSE
  LET RECURSIVE Go(_)
      Go(i) == IF i > Len(t.k) THEN Inorder(t.c[i]) ELSE Inorder(t.c[i]) \o <<t.k[i]>> \o Go(i + 1)
  IN Go(1)
Depth(t) == IF Leaf(t) THEN 0 ELSE 1 + Depth(t.c[1])
Shape(t, top) ==
  /\ Len(t.k) <= MaxK /\ (~top => Len(t.k) >= Min)
  /\ (~Leaf(t) => Len(t.c) = Len(t.k) + 1 /\ \A i \in 1..Len(t.c) : Shape(t.c[i], FALSE) /\ Depth(t.c[i]) = Depth(t.c[1]))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))     \* x becomes element i
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Pos(t, x) == Cardinality({i \in 1..Len(t.k) : t.k[i] <= x})              \* as SearchNode: last key <= x
Found(t, x) == \E i \in 1..Len(t.k) : t.k[i] = x
(* insertion: a tree, or a left part, the key pushed up and a right part *)
RECURSIVE PushDown(_, _)
Fit(n) == IF Len(n.k) <= MaxK THEN [up |-> FALSE, t |-> n]
          ELSE [up |-> TRUE, l |-> [k |-> SubSeq(n.k, 1, Min), c |-> SubSeq(n.c, 1, IF Leaf(n) THEN 0 ELSE Min + 1)],
                key |-> n.k[Min + 1],
                r |-> [k |-> SubSeq(n.k, Min + 2, Len(n.k)), c |-> IF Leaf(n) THEN <<>> ELSE SubSeq(n.c, Min + 2, Len(n.c))]]
PushDown(t, x) ==
  LET p == Pos(t, x) IN
  IF Leaf(t) THEN Fit([k |-> Ins(t.k, p + 1, x), c |-> <<>>])
  ELSE LET s == PushDown(t.c[p + 1], x) IN
       IF ~s.up THEN [up |-> FALSE, t |-> [t EXCEPT !.c[p + 1] = s.t]]
       ELSE Fit([k |-> Ins(t.k, p + 1, s.key), c |-> Ins([t.c EXCEPT ![p + 1] = s.l], p + 2, s.r)])
Insert(t, x) == LET s == PushDown(t, x) IN IF s.up THEN [k |-> <<s.key>>, c |-> <<s.l, s.r>>] ELSE s.t
(* deletion; pos as in the code: child pos is c[pos + 1], the key left of it is k[pos] *)
MoveRight(t, pos) ==
  LET a == t.c[pos] b == t.c[pos + 1] IN
  [k |-> [t.k EXCEPT ![pos] = a.k[Len(a.k)]],
   c |-> [t.c EXCEPT ![pos] = [k |-> SubSeq(a.k, 1, Len(a.k) - 1), c |-> IF Leaf(a) THEN <<>> ELSE SubSeq(a.c, 1, Len(a.c) - 1)],
                     ![pos + 1] = [k |-> <<t.k[pos]>> \o b.k, c |-> IF Leaf(b) THEN <<>> ELSE <<a.c[Len(a.c)]>> \o b.c]]]
MoveLeft(t, pos) ==
  LET a == t.c[pos] b == t.c[pos + 1] IN
  [k |-> [t.k EXCEPT ![pos] = b.k[1]],
   c |-> [t.c EXCEPT ![pos] = [k |-> Append(a.k, t.k[pos]), c |-> IF Leaf(a) THEN <<>> ELSE Append(a.c, b.c[1])],
                     ![pos + 1] = [k |-> Tail(b.k), c |-> IF Leaf(b) THEN <<>> ELSE Tail(b.c)]]]
Combine(t, pos) ==
  LET a == t.c[pos] b == t.c[pos + 1] IN
  [k |-> Del(t.k, pos), c |-> [Del(t.c, pos + 1) EXCEPT ![pos] = [k |-> a.k \o <<t.k[pos]>> \o b.k, c |-> a.c \o b.c]]]
Restore(t, pos) ==
  IF pos > 0
  THEN IF Len(t.c[pos].k) > Min THEN MoveRight(t, pos)
       ELSE IF Len(t.k) > pos /\ Len(t.c[pos + 2].k) > Min THEN MoveLeft(t, pos + 1)
       ELSE Combine(t, pos)
  ELSE IF Len(t.c[2].k) > Min THEN MoveLeft(t, 1) ELSE Combine(t, 1)
RECURSIVE RecDelete(_, _), First(_)
First(t) == IF Leaf(t) THEN t.k[1] ELSE First(t.c[1])
RecDelete(t, x) ==
  LET p == Pos(t, x) IN
  IF Leaf(t) THEN (IF Found(t, x) THEN [t EXCEPT !.k = Del(@, p)] ELSE t)
  ELSE LET y == IF Found(t, x) THEN First(t.c[p + 1]) ELSE x
           n == [t EXCEPT !.k = IF Found(t, x) THEN [@ EXCEPT ![p] = y] ELSE @, !.c[p + 1] = RecDelete(@, y)]
       IN IF Len(n.c[p + 1].k) < Min THEN Restore(n, p) ELSE n
Delete(t, x) == LET n == RecDelete(t, x) IN IF n.k = <<>> /\ ~Leaf(n) THEN n.c[1] ELSE n
---------------------------------------------------------------------------
Init == tree = Nil /\ set = {} /\ hist = <<>>
DoPut(x) == /\ hist' = Append(hist, <<"P", x>>)
            /\ IF x \in set THEN UNCHANGED <<tree, set>>
               ELSE tree' = Insert(tree, x) /\ set' = set \cup {x}
DoRem(x) == /\ hist' = Append(hist, <<"D", x>>)
            /\ IF x \notin set THEN UNCHANGED <<tree, set>>
               ELSE tree' = Delete(tree, x) /\ set' = set \ {x}
Next == \E x \in 0..(N - 1) : DoPut(x) \/ DoRem(x)
View == <<tree, set>>
Effective == tree' # tree     \* scripts for the operations that change the tree
EmitAll == Effective => PrintT(<<"SCRIPT", ToJson(hist')>>)
Sorted == LET s == Inorder(tree) IN \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Refines == KeysOf(tree) = set
WellFormed == Shape(tree, TRUE)
=============================================================================
