----------------------------- MODULE FreeList -----------------------------
(* The free list algorithm behind every heap and block of the library        *)
(* (freenode.c): an address-ordered list of free pieces, first fit, pieces   *)
(* merged with both neighbours when freed.  TLC checks that it implements    *)
(* Heap: exclusive, bounded, conserved, and failing only when no contiguous  *)
(* run fits.  Every transition it explores is printed as a script (hist)     *)
(* which the conformance driver replays against the real code.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cap, MaxReq
VARIABLES free,      \* sequence of <<start, units>>, the list in link order
          heaps,     \* the abstract state (see Heap); live there is also this module's record of what is out
          hist
vars == <<free, heaps, hist>>
H == INSTANCE Heap
Live == heaps[0].live
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE FirstFit(_, _)
FirstFit(i, n) == IF i > Len(free) THEN 0 ELSE IF free[i][2] >= n THEN i ELSE FirstFit(i + 1, n)

(* freeNode_insertNode: walk to the piece after which the freed one belongs, then merge *)
End(p) == p[1] + p[2]
RECURSIVE Walk(_, _)
Walk(i, a) == IF i < Len(free) /\ a > End(free[i]) /\ a > free[i + 1][1] THEN Walk(i + 1, a) ELSE i
Insert(a, n) ==
  LET i == Walk(1, a)
      hd == free[i]
      hasNext == i < Len(free)
      nx == free[i + 1]
      pre == SubSeq(free, 1, i - 1)
      post == SubSeq(free, i + 1, Len(free))
      post2 == SubSeq(free, i + 2, Len(free))
  IN IF a = End(hd)
     THEN IF hasNext /\ nx[1] = End(hd) + n
          THEN pre \o << <<hd[1], hd[2] + n + nx[2]>> >> \o post2
          ELSE pre \o << <<hd[1], hd[2] + n>> >> \o post
     ELSE IF hasNext /\ nx[1] = a + n
          THEN pre \o <<hd>> \o << <<a, n + nx[2]>> >> \o post2
          ELSE pre \o <<hd>> \o << <<a, n>> >> \o post
(* freeNode_deallocSpace *)
Dealloc(a, n) ==
  IF free = <<>> THEN << <<a, n>> >>
  ELSE IF a < free[1][1]
       THEN IF free[1][1] = a + n THEN << <<a, n + free[1][2]>> >> \o Tail(free)
            ELSE << <<a, n>> >> \o free
       ELSE Insert(a, n)

Init == free = << <<0, Cap>> >> /\ heaps = (0 :> H!NewHeap(Cap)) /\ hist = <<>>
AllocOp(n) ==
  LET i == FirstFit(1, n) IN
  /\ hist' = Append(hist, <<"A", n>>)
  /\ IF i = 0
     THEN free' = free /\ heaps' = heaps
     ELSE LET p == free[i] IN
          /\ free' = IF p[2] = n THEN Drop(free, i) ELSE [free EXCEPT ![i] = <<p[1] + n, p[2] - n>>]
          /\ heaps' = [heaps EXCEPT ![0].live = (p[1] :> n) @@ @, ![0].used = @ + n]
FreeOp(a) ==
  /\ a \in DOMAIN Live
  /\ free' = Dealloc(a, Live[a])
  /\ heaps' = [heaps EXCEPT ![0].live = [x \in DOMAIN @ \ {a} |-> @[x]], ![0].used = @ - Live[a]]
  /\ hist' = Append(hist, <<"F", Cardinality({x \in DOMAIN Live : x < a})>>)
Next == (\E n \in 1..MaxReq : AllocOp(n)) \/ (\E a \in DOMAIN Live : FreeOp(a))
Spec == Init /\ [][Next]_vars
View == <<free, heaps>>
EmitAll == PrintT(<<"SCRIPT", ToJson(hist')>>)
---------------------------------------------------------------------------
RECURSIVE SumF(_)
SumF(s) == IF s = <<>> THEN 0 ELSE s[1][2] + SumF(Tail(s))
Ordered == \A i \in 1..(Len(free) - 1) : End(free[i]) < free[i + 1][1]     \* strictly apart: coalesced
Conserved == SumF(free) = H!FreeUnits(heaps[0])
FreeDisjointLive == \A i \in 1..Len(free) : H!IsFree(heaps[0], free[i][1], free[i][2])
Inv == H!HeapOK /\ H!FullyRecoverable /\ Ordered /\ Conserved /\ FreeDisjointLive
(* the first fit found is a step the abstract heap allows; a refusal happens only when nothing fits *)
Implements == [][ \/ \E n \in 1..MaxReq : H!AllocFail(0, n) \/ \E s \in 0..(Cap - 1) : H!Alloc(0, n, s)
                  \/ \E s \in 0..(Cap - 1) : H!Free(0, s) ]_heaps
FailOnlyWhenFull == \A n \in 1..MaxReq : FirstFit(1, n) = 0 => ~H!CanFit(heaps[0], n)
=============================================================================
