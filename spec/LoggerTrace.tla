----------------------------- MODULE LoggerTrace -----------------------------
(* Histories of one log: calls of one thread, or of several (c: call, r:     *)
(* return), each of which takes effect at one instant in between.            *)
EXTENDS Logger, TraceBase
VARIABLES stride, bytes, base,   \* base: where the log's space begins in its block; -1 before the first entry tells
          its,                   \* open iterators
          op,                    \* thread -> the call under way, or what it came to
          known                  \* a history that shows a recorded finding
vars == <<lvars, stride, bytes, base, its, op, known, l>>
T == 0..3
Idle == [o |-> "none"]
Same == UNCHANGED lvars
Keep == UNCHANGED <<stride, bytes, base, known>>
Quiet == \A t \in T : op[t] = Idle
Good == Ev.ok = 1
None == [k \in {} |-> 0]
TInit == size = 0 /\ circ = FALSE /\ next = 0 /\ wrapped = FALSE /\ log = <<>> /\ stride = 0 /\ bytes = 0 /\ base = -1 /\ its = None
         /\ op = [t \in T |-> Idle] /\ known = FALSE /\ l = 1
Round16(n) == 16 * ((n + 15) \div 16)
Strided(how) == how \in {1, 3}
Length(how, req) == IF Strided(how) THEN stride ELSE Round16(req + (IF how = 4 THEN 0 ELSE 16))
(* where an entry lies in the block: the first one tells where the space begins *)
Lies(at, off) == base' = (IF base = -1 THEN at - off ELSE base) /\ at = base' + off
               /\ base' >= 64 /\ base' % 16 = 0 /\ base' + size <= bytes
(* an iterator gives what was put there; entries of 4096 bytes and more have a known finding of their own *)
Shown(e) == /\ Ev.at = base + e.at /\ Ev.cat = e.cat /\ Ev.sub = e.sub /\ Ev.ts = 1 /\ Ev.next = 16
            /\ \/ Ev.tot = e.len /\ Ev.rem = e.len - 16 /\ Ev.i = e.i
               \/ known /\ e.len >= 4096 /\ Ev.tot = e.len % 4096
Handle(n, how) == Ev.tot = n /\ Ev.next = (IF how = 4 THEN 0 ELSE 16) /\ Ev.rem = n - Ev.next
(* the instant at which the call of t takes effect *)
Done(t, r) == op' = [op EXCEPT ![t] = [o |-> "ret", op |-> op[t], r |-> r]]
Effect(t) ==
  LET c == op[t] IN
  /\ UNCHANGED <<l, stride, bytes, base, known>>
  /\ \/ c.o = "alloc" /\ UNCHANGED its
        /\ LET n == Length(c.how, c.req) IN
           \/ Alloc(c.i, n, c.cat, c.sub, TRUE) /\ Done(t, Place(n))
           \/ Refuse(n) /\ Done(t, -1)
     \/ c.o = "complete" /\ Complete(c.i) /\ Done(t, 0) /\ UNCHANGED its
     \/ c.o = "open" /\ its' = (c.k :> Iterator) @@ its /\ Same /\ Done(t, 0)
     \/ c.o = "next" /\ Same
        /\ IF HasNext(its[c.k]) THEN its' = [its EXCEPT ![c.k].k = @ + 1] /\ Done(t, NextOf(its[c.k]).i)
           ELSE UNCHANGED its /\ Done(t, 0)
     \/ c.o = "wrapped" /\ Same /\ UNCHANGED its /\ Done(t, IF wrapped THEN 1 ELSE 0)
     \/ c.o = "full" /\ Same /\ UNCHANGED its /\ Done(t, IF Space = 0 THEN 1 ELSE 0)
     \/ c.o = "empty" /\ Same /\ UNCHANGED its /\ Done(t, IF log = <<>> /\ next = 0 THEN 1 ELSE 0)
     \/ c.o = "space" /\ Same /\ UNCHANGED its /\ Done(t, Space)
(* a circular log on which an entry waits that does not fit may already say that it has wrapped, and be at its beginning *)
Wrap ==
  /\ \E t \in T : op[t].o = "alloc" /\ circ /\ Length(op[t].how, op[t].req) <= size /\ ~Room(Length(op[t].how, op[t].req))
  /\ wrapped' = TRUE /\ next' \in {next, 0} /\ (wrapped /\ next' = next => FALSE)
  /\ UNCHANGED <<size, circ, log, its, op, l>> /\ Keep
TNext ==
  \/ \E t \in T : op[t].o \notin {"none", "ret"} /\ Effect(t)
  \/ Wrap
  \/ Is("reset") /\ size' = 0 /\ circ' = FALSE /\ next' = 0 /\ wrapped' = FALSE /\ log' = <<>> /\ stride' = 0 /\ bytes' = 0 /\ base' = -1 /\ its' = None
     /\ op' = [t \in T |-> Idle] /\ known' = FALSE
  (* all of the block but its header is the log's space; a circular log of equal entries has room for a number of whole ones *)
  \/ Is("create") /\ Good /\ Quiet /\ UNCHANGED op /\ stride' = Round16(Ev.asked) /\ bytes' = Ev.bytes /\ base' = -1 /\ its' = None
     /\ size' = Ev.space /\ size' % 16 = 0 /\ size' < Ev.bytes /\ circ' = (Ev.circ = 1) /\ next' = 0 /\ wrapped' = FALSE /\ log' = <<>>
     /\ (IF circ' /\ stride' > 0 THEN size' % stride' = 0 /\ size' + stride' > Ev.bytes - 272 ELSE size' > Ev.bytes - 272)
     /\ known' = (Ev.known = 1)
  \/ Is("alloc") /\ Good /\ Quiet /\ UNCHANGED <<stride, bytes, known, op, its>>
     /\ LET n == Length(Ev.how, Ev.req) IN
        Alloc(Ev.i, n, Ev.cat % 4096, Ev.sub % 256, Ev.how # 4) /\ Lies(Ev.at, Place(n)) /\ Handle(n, Ev.how)
  \/ Is("allocfail") /\ Good /\ Quiet /\ Keep /\ UNCHANGED <<op, its>> /\ Refuse(Length(Ev.how, Ev.req))
  \/ Is("hugefail") /\ Good /\ Quiet /\ Keep /\ UNCHANGED <<op, its>> /\ Refuse(size + 1)     \* a request larger than any log
  \/ Is("complete") /\ Good /\ Quiet /\ Keep /\ UNCHANGED <<op, its>> /\ Ev.rc = 0 /\ Complete(Ev.i)
  \/ Is("iscomp") /\ Good /\ Quiet /\ Keep /\ Same /\ UNCHANGED <<op, its>> /\ (Ev.r = 1) = log[At(Ev.i)].done
  \/ Is("open") /\ Good /\ Quiet /\ Keep /\ Same /\ UNCHANGED op /\ its' = (Ev.k :> Iterator) @@ its
  \/ Is("next") /\ Good /\ Quiet /\ Keep /\ Same /\ UNCHANGED op
     /\ HasNext(its[Ev.k]) /\ Shown(NextOf(its[Ev.k])) /\ its' = [its EXCEPT ![Ev.k].k = @ + 1]
  \/ Is("nextnone") /\ Good /\ Quiet /\ Keep /\ Same /\ UNCHANGED <<op, its>> /\ ~HasNext(its[Ev.k])
  \/ Is("state") /\ Good /\ Quiet /\ Keep /\ Same /\ UNCHANGED <<op, its>>
     /\ (Ev.empty = 1) = (log = <<>> /\ next = 0) /\ (Ev.full = 1) = (Space = 0) /\ Ev.space = Space /\ (Ev.wrapped = 1) = wrapped
  \/ Is("resetfull") /\ Good /\ Quiet /\ Keep /\ UNCHANGED op
     /\ IF NearlyFull THEN Ev.rc = 0 /\ Reset /\ its' = None ELSE Ev.rc = 1 /\ Same /\ UNCHANGED its
  \/ Is("clear") /\ Good /\ Quiet /\ Keep /\ UNCHANGED op /\ Ev.rc = 0 /\ Reset /\ its' = None
  \/ Is("prefetch") /\ Good /\ Quiet /\ Keep /\ Same /\ UNCHANGED <<op, its>> /\ Ev.rc = 0
  \/ Is("wrong") /\ Good /\ Quiet /\ Keep /\ Same /\ UNCHANGED <<op, its>> /\ Ev.r = 1      \* something that is no log: refused
  \/ Is("destroy") /\ Good /\ Quiet /\ Keep /\ Same /\ UNCHANGED <<op, its>> /\ Ev.rc = 0
  \/ Is("c") /\ op[Ev.t] = Idle /\ op' = [op EXCEPT ![Ev.t] = Ev] /\ Same /\ Keep /\ UNCHANGED its
  \/ /\ Is("r") /\ op[Ev.t].o = "ret" /\ op' = [op EXCEPT ![Ev.t] = Idle] /\ Same /\ UNCHANGED <<stride, bytes, its, known>>
     /\ LET c == op[Ev.t].op
            r == op[Ev.t].r IN
        CASE c.o = "alloc" -> IF r = -1 THEN Ev.at = -1 /\ UNCHANGED base ELSE Lies(Ev.at, r) /\ Handle(Length(c.how, c.req), c.how)
          [] c.o = "next" -> UNCHANGED base /\ (IF r = 0 THEN Ev.at = -1 ELSE (Live(r) => Shown(log[At(r)])))
          [] OTHER -> UNCHANGED base /\ Ev.r = r
=============================================================================
