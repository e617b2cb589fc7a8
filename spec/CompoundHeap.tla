---------------------------- MODULE CompoundHeap ----------------------------
(* A compound heap hands out pages of one size from its base block and, if   *)
(* it may expand, from further blocks of the same size that it takes from    *)
(* the store.  Which free page is handed out is left open, and so is when an *)
(* expanding heap takes another block; a page is never handed out twice and  *)
(* always lies in a block that belongs to the heap and to no other.          *)
(* Addresses and sizes are in units of the smallest page.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE ch      \* id -> [bsz, psz, fixed, blocks, live];  blocks: set of first addresses, live: set of page addresses

HeaderSize(h) == ch[h].psz                    \* the first page of every block is the heap's own
PagesPerBlock(h) == (ch[h].bsz - HeaderSize(h)) \div ch[h].psz
Apart(a, n, b, m) == a + n <= b \/ b + m <= a
Unclaimed(b, n) == \A x \in DOMAIN ch : \A c \in ch[x].blocks : Apart(b, n, c, ch[x].bsz)
BlockOf(h, a) == (a \div ch[h].bsz) * ch[h].bsz
IsPage(h, a) == /\ a % ch[h].psz = 0 /\ a - BlockOf(h, a) >= HeaderSize(h)
Owned(h, a) == BlockOf(h, a) \in ch[h].blocks

CHInit == ch = <<>>
New(h, base, bsz, psz, fixed) ==
  /\ h \notin DOMAIN ch /\ Unclaimed(base, bsz) /\ base % bsz = 0
  /\ ch' = (h :> [bsz |-> bsz, psz |-> psz, fixed |-> fixed, blocks |-> {base}, live |-> {}]) @@ ch
AllocIn(h, a) == /\ IsPage(h, a) /\ Owned(h, a) /\ a \notin ch[h].live
                 /\ ch' = [ch EXCEPT ![h].live = @ \cup {a}]
AllocGrow(h, a) == /\ IsPage(h, a) /\ ~ch[h].fixed /\ Unclaimed(BlockOf(h, a), ch[h].bsz)
                   /\ ch' = [ch EXCEPT ![h].live = @ \cup {a}, ![h].blocks = @ \cup {BlockOf(h, a)}]
Full(h) == Cardinality(ch[h].live) = PagesPerBlock(h) * Cardinality(ch[h].blocks)
AllocFail(h) == ch[h].fixed /\ Full(h) /\ UNCHANGED ch
Free(h, a) == a \in ch[h].live /\ ch' = [ch EXCEPT ![h].live = @ \ {a}]
Drop(h) == h \in DOMAIN ch /\ ch' = [x \in DOMAIN ch \ {h} |-> ch[x]]
FreePages(h) == PagesPerBlock(h) * Cardinality(ch[h].blocks) - Cardinality(ch[h].live)
---------------------------------------------------------------------------
PagesOK == \A h \in DOMAIN ch :
   /\ \A a \in ch[h].live : Owned(h, a) /\ IsPage(h, a)
   /\ \A x \in DOMAIN ch : \A a \in ch[h].live : \A b \in ch[x].live : (h # x \/ a # b) => Apart(a, ch[h].psz, b, ch[x].psz)
BlocksOK == \A h, x \in DOMAIN ch : \A b \in ch[h].blocks : \A c \in ch[x].blocks :
   (h # x \/ b # c) => Apart(b, ch[h].bsz, c, ch[x].bsz)
NothingLost == \A h \in DOMAIN ch : FreePages(h) >= 0
=============================================================================
