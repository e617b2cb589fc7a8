----------------------------- MODULE StackTrace -----------------------------
EXTENDS Stack, TraceBase
tvars == <<stacks, spaces, l>>
Good == Ev.ok = 1
Same == UNCHANGED <<stacks, spaces>>
TInit == StackInit /\ l = 1
TNext ==
  \/ Is("reset") /\ stacks' = <<>> /\ spaces' = <<>>
  \/ Is("create") /\ Good /\ NewStack(Ev.h, Ev.cap)
  \/ Is("push") /\ Good /\ Ev.al = 1 /\ Push(Ev.h, Units(Ev.n), Ev.a)
  \/ Is("pushfail") /\ Good /\ PushFail(Ev.h, Units(Ev.n))
  \/ Is("hugefail") /\ Good /\ Same              \* a request of 2^62 bytes and more: can only be refused
  \/ Is("cut") /\ Good /\ Ev.rc = 0 /\ Cut(Ev.h, Ev.a)
  \/ Is("badcut") /\ Good /\ Ev.rc # 0 /\ Same   \* misaligned, or outside the stack
  \/ Is("space") /\ Good /\ Ev.bytes = 16 * FreeUnits(Ev.h) /\ Same
  \/ Is("destroy") /\ Good /\ Ev.rc = 0 /\ DropStack(Ev.h)
  \* a space: off = address - handle, blk = size of the block behind the handle
  \/ Is("spcreate") /\ Good /\ Ev.al = 1 /\ Ev.off > 0 /\ Ev.free >= 0 /\ Ev.off + Ev.n + Ev.free = Ev.blk /\ NewSpace(Ev.h, Ev.n, Ev.free)
  \/ Is("spmap") /\ Good /\ Ev.back = 1 /\ Ev.free = spaces[Ev.h].free /\ Same
  \/ Is("spdestroy") /\ Good /\ Ev.rc = 0 /\ DropSpace(Ev.h)
=============================================================================
