----------------------------- MODULE WordTrace ------------------------------
(* Histories of a few words: calls of one thread (do), of several (c: call   *)
(* with its outcome, r: return), and bursts of many operations of one kind   *)
(* of which the answers are recorded in order.                               *)
EXTENDS Word, TraceBase
VARIABLES w, op
vars == <<w, op, l>>
T == 0..7
Idle == [o |-> "none"]
Quiet == \A t \in T : op[t] = Idle
At(i) == w[i + 1]
TInit == w = <<>> /\ op = [t \in T |-> Idle] /\ l = 1
Do(c) == /\ Ready(c.o, At(c.w)) /\ Answer(c.o, At(c.w), c.x, c.y) = c.out
         /\ w' = [w EXCEPT ![c.w + 1] = After(c.o, @, c.x, c.y)]
RECURSIVE Times(_, _)
Times(d, n) == IF n = 0 THEN Zero ELSE LET h == Times(Add(d, d), n \div 2) IN IF n % 2 = 1 THEN Add(d, h) ELSE h
Tag(i) == <<i % 65536, i \div 65536, (7 * i) % 65536, i % 251>>
Chain(r, first, d, last) == /\ r[1] = first /\ Add(r[Len(r)], d) = last
                            /\ \A i \in 1..(Len(r) - 1) : r[i + 1] = Add(r[i], d)
Burst == LET n == Ev.n * Ev.k IN
  CASE Ev.o \in {"add", "addp", "incl", "decl", "cas"} -> Len(Ev.rets) = n /\ Chain(Ev.rets, Ev.init, Ev.d, Ev.fin)
    [] Ev.o \in {"inc", "dec"} -> Ev.fin = Add(Ev.init, Times(Ev.d, n))
    (* what was found, and what was left: everything that was put, once *)
    [] Ev.o = "swap" -> Len(Ev.rets) = n + 1 /\ \A i \in 1..(n + 1) : Ev.rets[i] = Tag(i - 1)
    (* every thread sets and clears a bit of its own *)
    [] Ev.o \in {"bits", "bitsl"} -> /\ Ev.fin = Ev.init /\ Len(Ev.seen) = Ev.n
                            /\ \A t \in 1..Ev.n : Len(Ev.seen[t]) = Ev.k /\ \A i \in 1..Ev.k : Ev.seen[t][i] = (i + 1) % 2
    (* a section, one at a time *)
    [] OTHER -> Ev.count = n /\ Ev.most = 1 /\ Ev.fin = Ev.init
TNext ==
  \/ \E t \in T : op[t].o \notin {"none", "ret"} /\ Do(op[t]) /\ op' = [op EXCEPT ![t] = [o |-> "ret"]] /\ l' = l
  \/ Is("reset") /\ w' = Ev.now /\ op' = [t \in T |-> Idle]
  \/ Is("do") /\ Quiet /\ Do(Ev) /\ w' = Ev.now /\ UNCHANGED op
  \/ Is("c") /\ op[Ev.t] = Idle /\ op' = [op EXCEPT ![Ev.t] = Ev] /\ UNCHANGED w
  \/ Is("r") /\ op[Ev.t].o = "ret" /\ op' = [op EXCEPT ![Ev.t] = Idle] /\ UNCHANGED w
  \/ Is("end") /\ Quiet /\ w = Ev.now /\ UNCHANGED <<w, op>>
  \/ Is("burst") /\ Burst /\ UNCHANGED <<w, op>>
Words == \A i \in 1..Len(w) : IsWord(w[i])
=============================================================================
