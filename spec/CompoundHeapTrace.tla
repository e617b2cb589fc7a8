------------------------- MODULE CompoundHeapTrace -------------------------
EXTENDS CompoundHeap, TraceBase
Same == UNCHANGED ch
Good == Ev.ok = 1    \* page header, page contents and the page's own space found as they should be by the driver
Unit == 512
TInit == CHInit /\ l = 1
TNext ==
  \/ Is("reset") /\ ch' = <<>>
  \/ Is("mk") /\ Good /\ New(Ev.h, Ev.base, Ev.bsz, Ev.psz, Ev.fixed = 1)
  \/ Is("alloc") /\ Good /\ (AllocIn(Ev.h, Ev.a) \/ AllocGrow(Ev.h, Ev.a))
  \/ Is("allocfail") /\ AllocFail(Ev.h)
  \/ Is("free") /\ Good /\ Free(Ev.h, Ev.a)
  \/ Is("space") /\ Ev.free = Unit * ch[Ev.h].psz * FreePages(Ev.h)
                 /\ Ev.all = Unit * ch[Ev.h].bsz * Cardinality(ch[Ev.h].blocks) /\ Ev.page = Unit * ch[Ev.h].psz /\ Same
  \/ Is("del") /\ Drop(Ev.h)
  \/ Is("store") /\ ch = <<>> /\ Ev.same = 1 /\ Same     \* with every heap gone the store has all its space back
=============================================================================
