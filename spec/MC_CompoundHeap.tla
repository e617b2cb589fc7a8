-------------------------- MODULE MC_CompoundHeap --------------------------
EXTENDS CompoundHeap, Json
CONSTANTS BSz, MaxBlocks, MaxLive, Fixed, Heaps
VARIABLES hist, order       \* order: live pages of heap 0, oldest first (scripts name pages by age)
Space == 0..(BSz * MaxBlocks - 1)
Init == CHInit /\ hist = <<>> /\ order = <<>>
Drops(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
First == \E h \in Heaps : /\ h \notin DOMAIN ch /\ \A g \in Heaps : g < h => g \in DOMAIN ch
           /\ \E b \in {x * BSz : x \in 0..(MaxBlocks - 1)} : New(h, b, BSz, 1, Fixed)
           /\ UNCHANGED <<hist, order>>
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Choice(h) == {a \in Space : IsPage(h, a) /\ Owned(h, a) /\ a \notin ch[h].live}
Grow(h) == {a \in Space : IsPage(h, a) /\ ~Owned(h, a) /\ Unclaimed(BlockOf(h, a), BSz)}
Alloc(h, op) ==
  /\ \/ \E a \in Choice(h) : AllocIn(h, a) /\ order' = IF h = 0 THEN Append(order, a) ELSE order
     \/ \E a \in Grow(h) : a = Least(Grow(h)) /\ AllocGrow(h, a) /\ order' = IF h = 0 THEN Append(order, a) ELSE order
     \/ AllocFail(h) /\ UNCHANGED order
  /\ hist' = IF h = 0 THEN Append(hist, op) ELSE hist
Op == \E h \in DOMAIN ch :
  \/ Cardinality(ch[h].live) < MaxLive /\ Alloc(h, <<"A">>)
  \/ h = 0 /\ Cardinality(ch[h].live) < MaxLive /\ \E i \in 1..Len(order) : Alloc(0, <<"N", i - 1>>)
  \/ h = 0 /\ \E i \in 1..Len(order) : \E o \in {"F", "D"} :
       Free(0, order[i]) /\ order' = Drops(order, i) /\ hist' = Append(hist, <<o, i - 1>>)
  \/ h # 0 /\ \E a \in ch[h].live : Free(h, a) /\ UNCHANGED <<hist, order>>
Next == First \/ Op
(* scripts: the code picks pages by its own rule, so what matters is the pattern of operations by age *)
View == <<ch, order>>
EmitAll == PrintT(<<"SCRIPT", ToJson(hist')>>)
=============================================================================
