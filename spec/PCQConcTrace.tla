---------------------------- MODULE PCQConcTrace ----------------------------
(* A producer and a consumer thread on one queue under the schedule          *)
(* controller.  Each call takes effect at one instant between its call (c)   *)
(* and its return (r).                                                       *)
EXTENDS PCQueue, TraceBase
VARIABLES op,        \* thread -> the call under way, or what it came to
          stride, size
vars == <<cap, q, op, stride, size, l>>
Idle == [o |-> "none"]
Same == UNCHANGED <<cap, q>>
Keep == UNCHANGED <<stride, size>>
TInit == cap = 0 /\ q = <<>> /\ op = [t \in 0..1 |-> Idle] /\ stride = 0 /\ size = 0 /\ l = 1
Done(t, r) == op' = [op EXCEPT ![t] = [o |-> "ret", op |-> op[t].o, r |-> r]]
(* the instant at which the call of t takes effect *)
Effect(t) ==
  LET c == op[t] IN
  /\ UNCHANGED l /\ Keep
  /\ \/ c.o = "alloc" /\ Alloc(c.i, -1, c.ts = 1, 0, 0) /\ Done(t, 1)       \* where it lies is told by the return
     \/ c.o = "alloc" /\ c.spin = 0 /\ ~Room /\ Same /\ Done(t, 0)
     \/ c.o = "complete" /\ Complete(c.i) /\ Done(t, 1)
     \/ c.o = "get" /\ Ready /\ Same /\ Done(t, q[1].i)
     \/ c.o = "get" /\ c.spin = 0 /\ ~Ready /\ Same /\ Done(t, 0)
     \/ c.o = "getany" /\ Same /\ Done(t, IF q = <<>> THEN 0 ELSE q[1].i)
     \/ c.o = "free" /\ Free /\ Done(t, 1)
     \/ c.o = "space" /\ Same /\ Done(t, cap - Len(q))
     \/ c.o = "full" /\ Same /\ Done(t, IF Room THEN 0 ELSE 1)
     \/ c.o = "empty" /\ Same /\ Done(t, IF Ready THEN 0 ELSE 1)
(* two entries under way have no place yet: -1 stands for any *)
Placed(i, at) ==
  LET k == At(i) IN
  /\ at % 16 = 0 /\ at >= 0 /\ at + stride <= size
  /\ \A j \in 1..Len(q) : j # k /\ q[j].at >= 0 => at + stride <= q[j].at \/ q[j].at + stride <= at
  /\ q' = [q EXCEPT ![k].at = at] /\ UNCHANGED cap
TNext ==
  \/ \E t \in 0..1 : op[t].o \notin {"none", "ret"} /\ Effect(t)
  \/ Is("reset") /\ cap' = 0 /\ q' = <<>> /\ op' = [t \in 0..1 |-> Idle] /\ Keep
  \/ Is("create") /\ cap' = Ev.cap /\ cap' >= 1 /\ q' = <<>> /\ stride' = Ev.stride /\ size' = Ev.size /\ UNCHANGED op
  \/ Is("c") /\ op[Ev.t] = Idle /\ op' = [op EXCEPT ![Ev.t] = Ev] /\ Same /\ Keep
  \/ /\ Is("r") /\ op[Ev.t].o = "ret" /\ op' = [op EXCEPT ![Ev.t] = Idle] /\ Keep
     /\ LET c == op[Ev.t] IN
        CASE c.op = "alloc" -> IF c.r = 0 THEN Ev.at = -1 /\ Same ELSE Placed(Ev.i, Ev.at)
          [] c.op = "get" -> IF c.r = 0 THEN Ev.at = -1 /\ Same ELSE Ev.at = q[1].at /\ Ev.val = c.r /\ (Ev.ts = 1) = q[1].ts /\ Same
          [] c.op = "getany" -> (IF c.r = 0 THEN Ev.at = -1 ELSE Ev.at = q[1].at \/ q[1].at = -1) /\ Same
          [] c.op \in {"complete", "free", "full", "empty"} -> Ev.r = c.r /\ Same
          [] c.op = "space" -> Ev.r = c.r * stride /\ Same
  \/ Is("end") /\ q = <<>> /\ (\A t \in 0..1 : op[t] = Idle) /\ Same /\ Keep /\ UNCHANGED op
=============================================================================
