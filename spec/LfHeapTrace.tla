---------------------------- MODULE LfHeapTrace ----------------------------
(* Histories of one lock-free heap: calls of one thread, or of several (c:   *)
(* call, r: return).  The call of an allocation names its outcome, so that   *)
(* the instant at which it takes its units is all there is to find.          *)
EXTENDS LfHeap, TraceBase
VARIABLES unit, bytes, op,
          ver        \* word -> how often it has changed
vars == <<hvars, unit, bytes, op, ver, l>>
T == 0..3
Idle == [o |-> "none"]
NoFn == [k \in {} |-> 0]
Quiet == \A t \in T : op[t] = Idle
Good == Ev.ok = 1
Same == UNCHANGED <<hvars, unit, bytes, ver>>
TInit == nw = 0 /\ hdr = 0 /\ free = NoFn /\ live = NoFn /\ unit = 16 /\ bytes = 0 /\ op = [t \in T |-> Idle] /\ ver = NoFn /\ l = 1
Units(b) == (b + unit - 1) \div unit
AlignOf(a) == IF a <= unit THEN 1 ELSE a \div unit
Pow2(n) == n \in {2 ^ k : k \in 0..30}
Proper(req, a) == req > 0 /\ Units(req) <= 32 /\ (a = 0 \/ (Pow2(a) /\ a <= 64 * unit))
(* the tests of the repository want a request of 32 units refused, its documentation wants it granted *)
MayRefuse(req) == req >= 32 * unit
Fine(at, a) == at % unit = 0 /\ (IF a = 0 THEN TRUE ELSE at % a = 0)
(* the heap's own data: a pair of words for every 64 units and something before *)
Own(words) == 16 * words + 64
MayBe(r, kb, u) == LET k == (kb * 16) \div u IN
  /\ (r = 1 => Pow2(u) /\ Pow2(kb) /\ u >= 16 /\ k >= 2 /\ Own(k) <= 64 * u)
  /\ (r = 0 => ~Pow2(u) \/ ~Pow2(kb) \/ k < 2 \/ Own(k) + 256 + u > 64 * u)
Done(t, r) == op' = [op EXCEPT ![t] = [o |-> "ret", r |-> r]]
Bump(w) == ver' = [ver EXCEPT ![w] = @ + 1]
Cfg == UNCHANGED <<unit, bytes, l>>
Effect(t) ==
  LET c == op[t] IN
  /\ Cfg
  /\ \/ /\ c.o = "alloc" /\ c.out >= 0 /\ Fine(c.out, c.al) /\ Alloc(c.i, c.out \div unit, Units(c.req))
        /\ Bump((c.out \div unit) \div W) /\ Done(t, c.out)
     (* one word after the other has no room, or is given up because it keeps changing *)
     \/ /\ c.o = "alloc" /\ c.out = -1 /\ op' = [op EXCEPT ![t] = [c EXCEPT !.o = "look"] @@ [w |-> 0, v |-> ver[0]]]
        /\ UNCHANGED <<hvars, ver>>
     \/ /\ c.o = "look" /\ (~Fits(c.w, Units(c.req), AlignOf(c.al)) \/ ver[c.w] - c.v >= 2 \/ MayRefuse(c.req))
        /\ IF c.w + 1 = nw THEN Done(t, -1) ELSE op' = [op EXCEPT ![t] = [c EXCEPT !.w = @ + 1, !.v = ver[c.w + 1]]]
        /\ UNCHANGED <<hvars, ver>>
     \/ c.o = "free" /\ Bump(live[c.i].at \div W) /\ Free(c.i) /\ Done(t, 0)
     \/ /\ c.o \in {"space", "full"} /\ op' = [op EXCEPT ![t] = [o |-> "sum", what |-> c.o, w |-> 0, acc |-> 0]] /\ UNCHANGED <<hvars, ver>>
     \/ /\ c.o = "sum" /\ UNCHANGED <<hvars, ver>>
        /\ LET acc == c.acc + Cardinality(free[c.w]) IN
           IF c.w + 1 = nw THEN Done(t, IF c.what = "full" THEN (IF acc = 0 THEN 1 ELSE 0) ELSE acc * unit)
           ELSE op' = [op EXCEPT ![t] = [c EXCEPT !.w = @ + 1, !.acc = acc]]
TNext ==
  \/ \E t \in T : op[t].o \notin {"none", "ret"} /\ Effect(t)
  \/ Is("reset") /\ nw' = 0 /\ hdr' = 0 /\ free' = NoFn /\ live' = NoFn /\ unit' = 16 /\ bytes' = 0 /\ op' = [t \in T |-> Idle] /\ ver' = NoFn
  \/ /\ Is("create") /\ Good /\ Quiet /\ MayBe(Ev.r, Ev.kb, Ev.unit) /\ unit' = Ev.unit /\ bytes' = Ev.bytes /\ UNCHANGED op
     /\ IF Ev.r = 0 THEN nw' = 0 /\ hdr' = 0 /\ free' = NoFn /\ live' = NoFn /\ ver' = NoFn
        ELSE LET k == (Ev.bytes \div 64) \div Ev.unit
                 h == k * 64 - Ev.free \div Ev.unit IN
             /\ Ev.free % Ev.unit = 0 /\ h * Ev.unit >= Own(k) /\ h * Ev.unit < Own(k) + 192 + Ev.unit
             /\ Fresh(k, h) /\ ver' = [w \in 0..(k - 1) |-> 0]
  \/ /\ Is("alloc") /\ Good /\ Quiet /\ Proper(Ev.req, Ev.al) /\ Fine(Ev.at, Ev.al) /\ Alloc(Ev.i, Ev.at \div unit, Units(Ev.req))
     /\ UNCHANGED <<unit, bytes, op, ver>>
  \/ /\ Is("allocfail") /\ Good /\ Quiet /\ (Proper(Ev.req, Ev.al) /\ ~MayRefuse(Ev.req) => ~Room(Units(Ev.req), AlignOf(Ev.al))) /\ Same /\ UNCHANGED op
  \/ /\ Is("free") /\ Good /\ Quiet /\ Ev.rc = 0 /\ Free(Ev.i) /\ UNCHANGED <<unit, bytes, op, ver>>
  (* what is no allocation is not freed *)
  \/ /\ Is("bad") /\ Good /\ Quiet /\ Ev.rc # 0 /\ Same /\ UNCHANGED op
  \/ /\ Is("state") /\ Good /\ Quiet /\ Ev.free = FreeUnits * unit /\ (Ev.empty = 1) = Empty /\ (Ev.full = 1) = Full /\ Same /\ UNCHANGED op
  \/ /\ Is("destroy") /\ Good /\ Quiet /\ Ev.rc = 0 /\ Same /\ UNCHANGED op
  \/ /\ Is("c") /\ op[Ev.t] = Idle /\ op' = [op EXCEPT ![Ev.t] = Ev] /\ Same
  \/ /\ Is("r") /\ op[Ev.t].o = "ret" /\ Ev.r = op[Ev.t].r /\ op' = [op EXCEPT ![Ev.t] = Idle] /\ Same
=============================================================================
