------------------------------ MODULE MPQRing ------------------------------
(* The queue as the code has it: a ring of entry headers, a head and a tail  *)
(* moved under one lock, contents filled in and read outside it.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, C,          \* producers, consumers
          N,             \* places
          Max,           \* entries made altogether
          LockHead, LockTail,   \* the lock is taken to move the head / the tail
          Take           \* the tail entry is marked as taken when it is handed out
ASSUME P \cap C = {}
VARIABLES slot, data, head, tail, lock, pc, cur, id, made, n, nx, q, held, out, bad
vars == <<slot, data, head, tail, lock, pc, cur, id, made, n, nx, q, held, out, bad>>
abs == <<n, nx, q, held, out>>
A == INSTANCE MPQueue
Init == /\ slot = [s \in 0..(N - 1) |-> "free"] /\ data = [s \in 0..(N - 1) |-> 0] /\ head = 0 /\ tail = 0 /\ lock = FALSE
        /\ pc = [t \in P \cup C |-> "idle"] /\ cur = [t \in P \cup C |-> 0] /\ id = [t \in P \cup C |-> 0] /\ made = 0
        /\ n = N /\ nx = 0 /\ q = <<>> /\ held = {} /\ out = <<>> /\ bad = FALSE
To(t, l) == pc' = [pc EXCEPT ![t] = l]
(* the abstract queue is carried along: a step that it does not allow sets bad *)
Abs(may, act) == IF may THEN act /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED <<n, nx, q, held>>
Begin(t, locked, l) ==
  /\ pc[t] = "idle" /\ To(t, l) /\ UNCHANGED <<slot, data, head, tail, cur, id, made, abs, bad>>
  /\ IF locked THEN ~lock /\ lock' = TRUE ELSE UNCHANGED lock
Unlock(locked) == IF locked THEN lock' = FALSE ELSE UNCHANGED lock
Producer(t) ==
  \/ made < Max /\ Begin(t, LockHead, "look")
  \/ /\ pc[t] = "look" /\ cur' = [cur EXCEPT ![t] = head] /\ UNCHANGED <<data, head, tail, id, made, slot, abs, bad>>
     /\ IF slot[head] = "free" THEN To(t, "mark") /\ UNCHANGED lock ELSE To(t, "idle") /\ Unlock(LockHead)
  \/ /\ pc[t] = "mark" /\ slot' = [slot EXCEPT ![cur[t]] = "alloc"] /\ To(t, "move") /\ made' = made + 1 /\ id' = [id EXCEPT ![t] = made + 1]
     /\ Abs(A!Room, A!Alloc(made + 1, cur[t])) /\ UNCHANGED <<data, head, tail, lock, cur, out>>
  \/ /\ pc[t] = "move" /\ head' = (cur[t] + 1) % N /\ To(t, "fill") /\ Unlock(LockHead)
     /\ UNCHANGED <<slot, data, tail, cur, id, made, abs, bad>>
  \/ /\ pc[t] = "fill" /\ data' = [data EXCEPT ![cur[t]] = id[t]] /\ To(t, "done") /\ UNCHANGED <<slot, head, tail, lock, cur, id, made, abs, bad>>
  \/ /\ pc[t] = "done" /\ slot' = [slot EXCEPT ![cur[t]] = "done"] /\ To(t, "idle") /\ Abs(A!InQ(id[t]), A!Complete(id[t]))
     /\ UNCHANGED <<data, head, tail, lock, cur, id, made, out>>
Consumer(t) ==
  \/ Begin(t, LockTail, "look")
  \/ /\ pc[t] = "look" /\ cur' = [cur EXCEPT ![t] = tail] /\ UNCHANGED <<data, head, tail, id, made, slot, abs, bad>>
     /\ IF slot[tail] = "done" THEN To(t, "mark") /\ UNCHANGED lock ELSE To(t, "idle") /\ Unlock(LockTail)
  \/ /\ pc[t] = "mark" /\ slot' = [slot EXCEPT ![cur[t]] = IF Take THEN "taken" ELSE slot[cur[t]]] /\ To(t, "move")
     /\ Abs(A!Ready, A!Get) /\ id' = [id EXCEPT ![t] = IF q = <<>> THEN 0 ELSE q[1].i] /\ UNCHANGED <<data, head, tail, lock, cur, made, out>>
  \/ /\ pc[t] = "move" /\ tail' = (cur[t] + 1) % N /\ To(t, "read") /\ Unlock(LockTail)
     /\ UNCHANGED <<slot, data, head, cur, id, made, abs, bad>>
  \/ /\ pc[t] = "read" /\ To(t, "free") /\ out' = Append(out, data[cur[t]]) /\ bad' = (bad \/ data[cur[t]] # id[t])
     /\ UNCHANGED <<slot, data, head, tail, lock, cur, id, made, n, nx, q, held>>
  \/ /\ pc[t] = "free" /\ slot' = [slot EXCEPT ![cur[t]] = "free"] /\ To(t, "idle") /\ Abs(\E h \in held : h.i = id[t], A!Free(id[t]))
     /\ UNCHANGED <<data, head, tail, lock, cur, id, made, out>>
Next == (\E t \in P : Producer(t)) \/ (\E t \in C : Consumer(t))
Spec == Init /\ [][Next]_vars /\ (\A t \in P : WF_vars(Producer(t))) /\ (\A u \in C : WF_vars(Consumer(u)))
(* every step is one of the abstract queue, or changes nothing there; contents arrive whole *)
Faithful == ~bad
(* each entry reaches one consumer *)
Once == \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
Agree == \A s \in 0..(N - 1) : slot[s] = "free" => \A h \in held : h.at # s
View == <<slot, data, head, tail, lock, pc, cur, id, made, n, nx, q, held, bad, {out[k] : k \in 1..Len(out)}, Len(out)>>
=============================================================================
