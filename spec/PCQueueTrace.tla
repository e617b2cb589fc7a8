---------------------------- MODULE PCQueueTrace ----------------------------
(* Histories of one thread acting as producer, consumer and observer.        *)
(* Places are offsets from the start of the buffer.                          *)
EXTENDS PCQueue, TraceBase
VARIABLES stride, lo, hi
vars == <<cap, q, stride, lo, hi, l>>
Good == Ev.ok = 1
Same == UNCHANGED <<cap, q>>
Keep == UNCHANGED <<stride, lo, hi>>
TInit == cap = 0 /\ q = <<>> /\ stride = 0 /\ lo = 0 /\ hi = 0 /\ l = 1
Round16(n) == 16 * ((n + 15) \div 16)
Apart(at) == \A k \in 1..Len(q) : at + stride <= q[k].at \/ q[k].at + stride <= at
(* what the consumer's handle says: where the data starts, how much of the entry is left, how long the entry is *)
Shape(e) == Ev.at = e.at /\ Ev.tot = stride /\ Ev.next >= 4 /\ Ev.next + Ev.rem = stride
(* the head's categories, stamp and contents as the producer left them *)
Head1 == LET e == q[1] IN Ev.at = e.at /\ Ev.cat = e.cat /\ Ev.sub = e.sub /\ (Ev.ts = 1) = e.ts /\ Ev.val = 1
TNext ==
  \/ Is("reset") /\ cap' = 0 /\ q' = <<>> /\ Keep
  (* a queue in size bytes: entries of the stride asked for rounded up to 16, and as many of them as there is room for
     behind the control block, but one *)
  \/ Is("create") /\ Good /\ Ev.stride = Round16(Ev.asked) /\ Ev.space = Ev.stride * (Ev.space \div Ev.stride)
     /\ cap' = Ev.space \div Ev.stride /\ cap' >= 1 /\ cap' * Ev.stride < Ev.size /\ (cap' + 2) * Ev.stride > Ev.size - 512
     /\ stride' = Ev.stride /\ lo' = 0 /\ hi' = Ev.size /\ q' = <<>>
  \/ Is("alloc") /\ Good /\ Keep /\ Ev.at % 16 = 0 /\ Ev.at >= lo /\ Ev.at + stride <= hi /\ Apart(Ev.at)
     /\ Ev.tot = stride /\ Ev.next >= 4 /\ Ev.next + Ev.rem = stride
     /\ Alloc(Ev.i, Ev.at, Ev.ts = 1, Ev.cat, Ev.sub)
  \/ Is("allocfail") /\ Good /\ Keep /\ ~Room /\ Same
  \/ Is("complete") /\ Good /\ Keep /\ Ev.rc = 1 /\ Complete(Ev.i)
  \/ Is("completeas") /\ Good /\ Keep /\ Ev.rc = 1 /\ CompleteAs(Ev.i, Ev.cat, Ev.sub)
  \/ Is("stale") /\ Good /\ Keep /\ Ev.rc = 0 /\ Same      \* an entry that was freed: not completed
  \/ Is("iscomp") /\ Good /\ Keep /\ (Ev.r = 1) = q[At(Ev.i)].done /\ Same
  \/ Is("get") /\ Good /\ Keep /\ Ready /\ Shape(q[1]) /\ Head1 /\ Same
  \/ Is("getany") /\ Good /\ Keep /\ q # <<>> /\ Ev.at = q[1].at /\ Same    \* the oldest entry, complete or not
  \/ Is("getnone") /\ Good /\ Keep /\ ~Ready /\ Same
  \/ Is("anynone") /\ Good /\ Keep /\ q = <<>> /\ Same
  \/ Is("free") /\ Good /\ Keep /\ Ev.rc = 1 /\ Free
  \/ Is("freenone") /\ Good /\ Keep /\ Ev.rc = 0 /\ ~Ready /\ Same
  \/ Is("state") /\ Good /\ Keep /\ (Ev.empty = 1) = ~Ready /\ (Ev.full = 1) = ~Room
     /\ Ev.space = (cap - Len(q)) * stride /\ Ev.stride = stride /\ Same
  \/ Is("clear") /\ Good /\ Keep /\ Ev.rc = 0 /\ Reset
  \/ Is("prefetch") /\ Good /\ Keep /\ Ev.rc = 0 /\ Same
=============================================================================
