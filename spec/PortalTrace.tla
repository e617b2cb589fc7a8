---------------------------- MODULE PortalTrace ----------------------------
(* Histories of one portal and its logs: calls of one thread, or of several  *)
(* (c: call, r: return), each of which takes effect in between.              *)
EXTENDS Portal, TraceBase
VARIABLES info,    \* name of a log -> [stride, bytes, base: where its space begins in its block, -1: not seen yet]
          its, op, bytes
vars == <<pvars, info, its, op, bytes, l>>
T == 0..3
Idle == [o |-> "none"]
NoFn == [k \in {} |-> 0]
Quiet == \A t \in T : op[t] = Idle
Good == Ev.ok = 1
Same == UNCHANGED pvars
Rest == UNCHANGED <<info, bytes>>
TInit == cap = 0 /\ list = <<>> /\ cur = 1 /\ pool = NoFn /\ info = NoFn /\ its = NoFn /\ op = [t \in T |-> Idle] /\ bytes = 0 /\ l = 1
Round16(n) == 16 * ((n + 15) \div 16)
Strided(how) == how = 1
Need(how, req, x) == IF Strided(how) THEN info[x].stride ELSE Round16(req + (IF how = 4 THEN 0 ELSE 16))
Lies(x, at, off) == info' = [info EXCEPT ![x].base = IF @ = -1 THEN at - off ELSE @]
                    /\ at = info'[x].base + off /\ info'[x].base >= 64 /\ info'[x].base + pool[x].size <= info[x].bytes
Shown(x, e) == /\ Ev.lg = x /\ Ev.at = info[x].base + e.at /\ Ev.cat = e.cat /\ Ev.sub = e.sub /\ Ev.ts = 1 /\ Ev.next = 16
               /\ Ev.tot = e.len /\ Ev.rem = e.len - 16 /\ Ev.i = e.i
Handle(n, how) == Ev.tot = n /\ Ev.next = (IF how = 4 THEN 0 ELSE 16) /\ Ev.rem = n - Ev.next
(* one caller alone: a request with its own need in every log *)
N(k) == Need(Ev.how, Ev.req, list[k])
Has == {k \in cur..Len(list) : Grants(pool[list[k]], N(k))}
To == IF Has = {} THEN Len(list) + 1 ELSE First(Has)
Leave == [x \in DOMAIN pool |-> IF \E k \in cur..(To - 1) : list[k] = x THEN Shut(pool[x]) ELSE pool[x]]
Name == IF cur <= Len(list) THEN list[cur] ELSE -1
(* what the portal says of itself *)
Says == /\ (Ev.empty = 1) = (list = <<>>) /\ Ev.entries = Len(list) /\ Ev.cap = cap
        /\ Ev.current = Name /\ Ev.index = (IF list = <<>> THEN -1 ELSE cur - 1)
        /\ Ev.at = (IF Ev.of >= 0 /\ Ev.of < Len(list) THEN list[Ev.of + 1] ELSE -1)
Done(t, r) == op' = [op EXCEPT ![t] = [o |-> "ret", op |-> op[t], r |-> r]]
Effect(t) ==
  LET c == op[t] IN
  /\ UNCHANGED <<l, info, bytes>>
  /\ \/ c.o = "alloc" /\ UNCHANGED its
        /\ \/ cur <= Len(list) /\ Grant(c.i, Need(c.how, c.req, Here), c.cat, c.sub) /\ Done(t, <<Here, Place(pool[Here], Need(c.how, c.req, Here))>>)
           \/ cur <= Len(list) /\ Turn(Need(c.how, c.req, Here)) /\ UNCHANGED op
           \/ Refused /\ Same /\ Done(t, <<-1, 0>>)
     \/ c.o = "add" /\ Add(c.x) /\ UNCHANGED its /\ Done(t, IF Added(c.x) THEN 1 ELSE 0)
     \/ c.o = "complete" /\ Complete(c.i) /\ Done(t, 0) /\ UNCHANGED its
     (* it takes stock of the first log, and then of the list *)
     \/ c.o = "open" /\ Same /\ list = <<>> /\ UNCHANGED its /\ Done(t, 0)
     \/ c.o = "open" /\ Same /\ list # <<>> /\ its' = (c.k :> Iterator) @@ its /\ op' = [op EXCEPT ![t] = [c EXCEPT !.o = "opened"]]
     \/ c.o = "opened" /\ Same /\ its' = [its EXCEPT ![c.k].n = Len(list)] /\ Done(t, 1)
     \/ c.o = "next" /\ Same
        /\ \/ HasNext(its[c.k]) /\ its' = [its EXCEPT ![c.k] = Given(@)] /\ Done(t, its[c.k].ids[its[c.k].k])
           \/ None(its[c.k]) /\ its' = [its EXCEPT ![c.k].off = FALSE] /\ Done(t, 0)
           \/ ~HasNext(its[c.k]) /\ ~its[c.k].off /\ its' = [its EXCEPT ![c.k].off = TRUE] /\ UNCHANGED op
           \/ its[c.k].off /\ MayGoOn(its[c.k]) /\ its' = [its EXCEPT ![c.k] = GoneOn(@)] /\ UNCHANGED op
     \/ c.o = "empty" /\ Same /\ UNCHANGED its /\ Done(t, IF list = <<>> THEN 1 ELSE 0)
     \/ c.o = "entries" /\ Same /\ UNCHANGED its /\ Done(t, Len(list))
     \/ c.o = "current" /\ Same /\ UNCHANGED its /\ Done(t, Name)
     \/ c.o = "index" /\ Same /\ UNCHANGED its /\ Done(t, IF list = <<>> THEN -1 ELSE cur - 1)
     \/ c.o = "of" /\ Same /\ UNCHANGED its /\ Done(t, IF c.n < Len(list) THEN list[c.n + 1] ELSE -1)
TNext ==
  \/ \E t \in T : op[t].o \notin {"none", "ret"} /\ Effect(t)
  \/ (\E t \in T : op[t].o = "alloc") /\ Advance /\ UNCHANGED <<info, its, op, bytes, l>>
  (* an iterator goes on to the next log when it is asked for more *)
  \/ More /\ Ev.e \in {"next", "nextnone"} /\ Quiet /\ MayGoOn(its[Ev.k]) /\ its' = [its EXCEPT ![Ev.k] = GoneOn(@)]
     /\ Same /\ Rest /\ UNCHANGED <<op, l>>
  \/ Is("reset") /\ cap' = 0 /\ list' = <<>> /\ cur' = 1 /\ pool' = NoFn /\ info' = NoFn /\ its' = NoFn /\ op' = [t \in T |-> Idle] /\ bytes' = 0
  \/ Is("create") /\ Good /\ Quiet /\ bytes' = Ev.bytes /\ cap' = Ev.cap /\ Ev.cap > 0 /\ Ev.cap * 8 < Ev.bytes
     /\ (Ev.cap >= (Ev.bytes - 272) \div 16 \/ Ev.bytes > 1000000)
     /\ list' = <<>> /\ cur' = 1 /\ pool' = NoFn /\ info' = NoFn /\ its' = NoFn /\ UNCHANGED op
  \/ Is("mklog") /\ Good /\ Quiet /\ pool' = (Ev.x :> Fresh(Ev.space, Ev.circ = 1)) @@ pool
     /\ info' = (Ev.x :> [stride |-> Ev.stride, bytes |-> Ev.bytes, base |-> -1]) @@ info /\ UNCHANGED <<cap, list, cur, its, op, bytes>>
  \/ Is("add") /\ Good /\ Quiet /\ (Ev.r = 1) = Added(Ev.x) /\ Add(Ev.x) /\ Rest /\ UNCHANGED <<its, op>>
  \/ Is("alloc") /\ Good /\ Quiet /\ To <= Len(list) /\ Ev.lg = list[To]
     /\ pool' = [Leave EXCEPT ![list[To]] = Put(@, Ev.i, N(To), Ev.cat, Ev.sub)] /\ cur' = To
     /\ Lies(list[To], Ev.at, Place(pool[list[To]], N(To))) /\ Handle(N(To), Ev.how)
     /\ UNCHANGED <<cap, list, bytes, its, op>>
  \/ Is("allocfail") /\ Good /\ Quiet /\ Has = {} /\ pool' = Leave /\ cur' = (IF list = <<>> THEN cur ELSE Len(list))
     /\ UNCHANGED <<cap, list, its, op>> /\ Rest
  \/ Is("complete") /\ Good /\ Quiet /\ Ev.rc = 0 /\ Complete(Ev.i) /\ Rest /\ UNCHANGED <<its, op>>
  \/ Is("open") /\ Good /\ Quiet /\ (Ev.r = 1) = (list # <<>>) /\ its' = (IF list = <<>> THEN its ELSE (Ev.k :> Iterator) @@ its)
     /\ Same /\ Rest /\ UNCHANGED op
  \/ Is("next") /\ Good /\ Quiet /\ HasNext(its[Ev.k]) /\ Shown(list[its[Ev.k].at], NextOf(its[Ev.k])) /\ its' = [its EXCEPT ![Ev.k] = Given(@)]
     /\ Same /\ Rest /\ UNCHANGED op
  \/ Is("nextnone") /\ Good /\ Quiet /\ None(its[Ev.k]) /\ Same /\ Rest /\ UNCHANGED <<its, op>>
  \/ Is("clear") /\ Good /\ Quiet /\ Ev.rc = 0 /\ Clear(Ev.x) /\ Rest /\ its' = NoFn /\ UNCHANGED op
  \/ Is("state") /\ Good /\ Quiet /\ Says /\ Same /\ Rest /\ UNCHANGED <<its, op>>
  (* a log says what it holds, also when it is asked directly *)
  \/ Is("logstate") /\ Good /\ Quiet /\ Ev.space = (IF Full(pool[Ev.x]) THEN 0 ELSE pool[Ev.x].size - pool[Ev.x].next) /\ Same /\ Rest /\ UNCHANGED <<its, op>>
  \/ Is("wrong") /\ Good /\ Quiet /\ Ev.r = 1 /\ Same /\ Rest /\ UNCHANGED <<its, op>>
  \/ Is("destroy") /\ Good /\ Quiet /\ Ev.rc = 0 /\ Same /\ Rest /\ UNCHANGED <<its, op>>
  \/ Is("c") /\ op[Ev.t] = Idle /\ op' = [op EXCEPT ![Ev.t] = Ev] /\ Same /\ Rest /\ UNCHANGED its
  \/ /\ Is("r") /\ op[Ev.t].o = "ret" /\ op' = [op EXCEPT ![Ev.t] = Idle] /\ Same /\ UNCHANGED <<its, bytes>>
     /\ LET c == op[Ev.t].op
            r == op[Ev.t].r IN
        CASE c.o = "alloc" -> /\ Ev.lg = r[1]
                              /\ IF r[1] = -1 THEN UNCHANGED info ELSE Lies(r[1], Ev.at, r[2]) /\ Handle(Need(c.how, c.req, r[1]), c.how)
          [] c.o = "next" -> UNCHANGED info /\ (IF r = 0 THEN Ev.at = -1 ELSE (Live(r) => Shown(Of(r)[1], Entry(Of(r)))))
          [] OTHER -> UNCHANGED info /\ Ev.r = r
=============================================================================
