----------------------------- MODULE HeapTrace -----------------------------
(* Validates recorded histories of real heaps against Heap.                  *)
EXTENDS Heap, TraceBase
tvars == <<heaps, l>>
Good == Ev.ok = 1      \* live contents, header and surrounding memory found intact by the driver
TInit == HeapInit /\ l = 1
TNext ==
  \/ Is("reset") /\ heaps' = <<>>
  \/ Is("create") /\ Good /\ Create(Ev.h, Ev.cap)
  \/ Is("alloc") /\ Good /\ Ev.al = 1 /\ Alloc(Ev.h, Units(Ev.n), Ev.a)
  \/ Is("allocfail") /\ Good /\ (Units(Ev.n) >= heaps[Ev.h].cap \/ AllocFail(Ev.h, Units(Ev.n))) /\ UNCHANGED heaps
  \/ Is("free") /\ Good /\ Ev.rc = 0 /\ Free(Ev.h, Ev.a)
  \/ Is("space") /\ Good /\ Ev.bytes = Unit * FreeUnits(heaps[Ev.h]) /\ Ev.empty = (IF IsEmpty(heaps[Ev.h]) THEN 1 ELSE 0)
                 /\ UNCHANGED heaps
  \/ Is("find") /\ Good /\ Ev.got = Ev.h /\ UNCHANGED heaps
  \/ Is("destroy") /\ Good /\ Ev.rc = 0 /\ Destroy(Ev.h)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
