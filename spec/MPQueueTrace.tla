---------------------------- MODULE MPQueueTrace ----------------------------
(* Producer and consumer threads on one queue.  Each call takes effect at    *)
(* one instant between its call (c) and its return (r).  When no call is     *)
(* under way the queue's answers are looked at (obs).                        *)
EXTENDS MPQueue, TLC, TraceBase
CONSTANT T
VARIABLES op,        \* thread -> the call under way, or what it came to
          codes,     \* entry -> the codes it was completed with
          stride, size
vars == <<n, nx, q, held, op, codes, stride, size, l>>
Idle == [o |-> "none"]
NoOp == [t \in 0..(T - 1) |-> Idle]
Same == UNCHANGED <<n, nx, q, held>>
Keep == UNCHANGED <<stride, size>>
TInit == n = 1 /\ nx = 0 /\ q = <<>> /\ held = {} /\ op = NoOp /\ codes = <<>> /\ stride = 0 /\ size = 0 /\ l = 1
Done(t, r) == op' = [op EXCEPT ![t] = [o |-> "ret", op |-> op[t].o, i |-> op[t].i, r |-> r]]
(* a producer's call ends when its entry's place is known, so a place that is not is -1 *)
Effect(t) ==
  LET c == op[t] IN
  /\ UNCHANGED l /\ Keep
  /\ \/ c.o = "alloc" /\ Alloc(c.i, -1) /\ Done(t, 1) /\ UNCHANGED codes
     \/ c.o = "alloc" /\ ~Room /\ Same /\ Done(t, 0) /\ UNCHANGED codes
     \/ c.o = "complete" /\ Complete(c.i) /\ codes' = (c.i :> <<c.cat, c.sub>>) @@ codes /\ Done(t, 1)
     \/ c.o = "get" /\ Get /\ Done(t, q[1].i) /\ UNCHANGED codes
     \/ c.o = "get" /\ ~Ready /\ Same /\ Done(t, 0) /\ UNCHANGED codes
     \/ c.o = "free" /\ Free(c.i) /\ Done(t, 1) /\ codes' = [x \in DOMAIN codes \ {c.i} |-> codes[x]]
Placed(i, at) ==
  LET apart(b) == b = -1 \/ at + stride <= b \/ b + stride <= at IN
  /\ at % 16 = 0 /\ at >= 0 /\ at + stride <= size
  /\ \A j \in 1..Len(q) : q[j].i # i => apart(q[j].at)
  /\ \A h \in held : h.i # i => apart(h.at)
  /\ InQ(i) /\ q' = [q EXCEPT ![Idx(i)].at = at] /\ UNCHANGED <<n, nx, held>>
AllIdle == op = NoOp
TNext ==
  \/ \E t \in 0..(T - 1) : op[t].o \notin {"none", "ret"} /\ Effect(t)
  \/ Is("reset") /\ n' = 1 /\ nx' = 0 /\ q' = <<>> /\ held' = {} /\ op' = NoOp /\ codes' = <<>> /\ Keep
  \/ (* the buffer is used to the last entry, but for a header *)
     /\ Is("create") /\ n' = Ev.n /\ Ev.n >= 1 /\ stride' = Ev.stride /\ size' = Ev.size /\ nx' = 0 /\ q' = <<>> /\ held' = {} /\ UNCHANGED op /\ codes' = <<>>
     /\ Ev.stride % 16 = 0 /\ Ev.stride >= Ev.want /\ Ev.stride < Ev.want + 16
     /\ Ev.n * Ev.stride <= Ev.size /\ Ev.n * Ev.stride > Ev.size - 512 - Ev.stride
  \/ Is("c") /\ op[Ev.t] = Idle /\ op' = [op EXCEPT ![Ev.t] = Ev] /\ Same /\ Keep /\ UNCHANGED codes
  \/ /\ Is("r") /\ op[Ev.t].o = "ret" /\ op' = [op EXCEPT ![Ev.t] = Idle] /\ Keep /\ UNCHANGED codes
     /\ LET c == op[Ev.t] IN
        CASE c.op = "alloc" -> IF c.r = 0 THEN Ev.at = -1 /\ Same ELSE Ev.at # -1 /\ Placed(c.i, Ev.at)
          [] c.op = "get" -> /\ Same
                             /\ IF c.r = 0 THEN Ev.at = -1
                                ELSE (\E h \in held : h.i = c.r /\ h.at = Ev.at) /\ Ev.val = c.r /\ <<Ev.cat, Ev.sub>> = codes[c.r] /\ Ev.ts = 0
          [] c.op \in {"complete", "free"} -> Ev.r = c.r /\ Same
  \/ /\ Is("obs") /\ AllIdle /\ Same /\ UNCHANGED <<op, codes>> /\ Keep
     /\ Ev.full = (IF Room THEN 0 ELSE 1) /\ Ev.space = Run * stride /\ Ev.n = n /\ Ev.stride = stride
     /\ (Ready => Ev.empty = 0) /\ (q = <<>> /\ held = {} => Ev.empty = 1)
  \/ /\ Is("isc") /\ AllIdle /\ Same /\ UNCHANGED <<op, codes>> /\ Keep
     /\ IF InQ(Ev.i) THEN Ev.r = (IF q[Idx(Ev.i)].done THEN 1 ELSE 0) ELSE Ev.r = 1
  \/ Is("resetq") /\ AllIdle /\ Reset /\ Ev.r = 0 /\ codes' = <<>> /\ UNCHANGED op /\ Keep
  \/ Is("prefetch") /\ AllIdle /\ Same /\ Ev.r = 0 /\ UNCHANGED <<op, codes>> /\ Keep
  \/ (* what is not such a queue is refused, and nothing is written *)
     /\ Is("wrong") /\ AllIdle /\ Same /\ UNCHANGED <<op, codes>> /\ Keep
     /\ Ev.stride = -1 /\ Ev.n = -1 /\ Ev.alloc = 0 /\ Ev.get = 0 /\ Ev.free = 0 /\ Ev.reset = 1 /\ Ev.tmpl = 0 /\ Ev.space = 0 /\ Ev.prefetch = 1 /\ Ev.destroy = 1 /\ Ev.intact = 1
  \/ (* a queue without a stride has no entries *)
     /\ Is("nostride") /\ AllIdle /\ Same /\ UNCHANGED <<op, codes>> /\ Keep /\ Ev.stride = 0 /\ Ev.n = 0
  \/ Is("destroy") /\ AllIdle /\ Ev.r = 0 /\ n' = 1 /\ nx' = 0 /\ q' = <<>> /\ held' = {} /\ codes' = <<>> /\ UNCHANGED op /\ Keep
  \/ Is("end") /\ AllIdle /\ q = <<>> /\ held = {} /\ Same /\ Keep /\ UNCHANGED <<op, codes>>
=============================================================================
