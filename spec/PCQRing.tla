------------------------------ MODULE PCQRing ------------------------------
(* The ring behind the single-producer single-consumer queue, at the level   *)
(* of its shared loads and stores, checked to be the bounded sequence of     *)
(* PCQueue.  One slot always stays free, so that equal ends mean "empty".    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,            \* slots
          Max,          \* entries produced
          DoneLast,     \* the producer marks the entry complete after writing its contents (else before)
          ClearFirst,   \* the consumer clears the entry before it moves its end (else after)
          Gap           \* one slot stays free (else the ends alone do not tell a full ring from an empty one)
Slots == 0..(N - 1)
Nx(s) == (s + 1) % N
VARIABLES head, tail, flag, data, pp, pc, ph, ct, rd, made, got
vars == <<head, tail, flag, data, pp, pc, ph, ct, rd, made, got>>
Init == /\ head = 0 /\ tail = 0 /\ flag = [s \in Slots |-> "free"] /\ data = [s \in Slots |-> 0]
        /\ pp = "idle" /\ pc = "idle" /\ ph = 0 /\ ct = 0 /\ rd = 0 /\ made = 0 /\ got = <<>>
Same(v) == UNCHANGED v
Producer ==
  /\ UNCHANGED <<tail, pc, ct, rd, got>>
  /\ \/ /\ pp = "idle" /\ made < Max /\ ph' = head
        /\ pp' = (IF Gap /\ Nx(head) = tail THEN "idle" ELSE "look") /\ UNCHANGED <<head, flag, data, made>>
     \/ /\ pp = "look" /\ pp' = (IF flag[ph] # "free" THEN "idle" ELSE "mark") /\ UNCHANGED <<head, flag, data, ph, made>>
     \/ /\ pp = "mark" /\ flag' = [flag EXCEPT ![ph] = "alloc"] /\ pp' = "move" /\ UNCHANGED <<head, data, ph, made>>
     \/ /\ pp = "move" /\ head' = Nx(ph) /\ made' = made + 1 /\ pp' = (IF DoneLast THEN "write" ELSE "done") /\ UNCHANGED <<flag, data, ph>>
     \/ /\ pp = "write" /\ data' = [data EXCEPT ![ph] = made] /\ pp' = (IF DoneLast THEN "done" ELSE "idle") /\ UNCHANGED <<head, flag, ph, made>>
     \/ /\ pp = "done" /\ flag' = [flag EXCEPT ![ph] = "done"] /\ pp' = (IF DoneLast THEN "idle" ELSE "write") /\ UNCHANGED <<head, data, ph, made>>
Consumer ==
  /\ UNCHANGED <<head, data, pp, ph, made>>
  /\ \/ /\ pc = "idle" /\ ct' = tail /\ pc' = (IF flag[tail] = "done" THEN "look" ELSE "idle") /\ UNCHANGED <<tail, flag, rd, got>>
     \/ /\ pc = "look" /\ pc' = (IF head # ct THEN "read" ELSE "idle") /\ UNCHANGED <<tail, flag, ct, rd, got>>
     \/ /\ pc = "read" /\ rd' = data[ct] /\ pc' = (IF ClearFirst THEN "clear" ELSE "move") /\ UNCHANGED <<tail, flag, ct, got>>
     \/ /\ pc = "clear" /\ flag' = [flag EXCEPT ![ct] = "free"] /\ pc' = (IF ClearFirst THEN "move" ELSE "idle") /\ UNCHANGED <<tail, ct, rd, got>>
     \/ /\ pc = "move" /\ tail' = Nx(ct) /\ got' = Append(got, rd) /\ pc' = (IF ClearFirst THEN "idle" ELSE "clear") /\ UNCHANGED <<flag, ct, rd>>
Next == Producer \/ Consumer
Spec == Init /\ [][Next]_vars /\ WF_vars(Producer) /\ WF_vars(Consumer)
---------------------------------------------------------------------------
(* what the consumer got is what the producer made, in order and once each *)
Fifo == \A k \in 1..Len(got) : got[k] = k
InFlight == (head - tail + N) % N
Count == InFlight = made - Len(got) /\ InFlight <= N - 1
Served == <>(Len(got) = Max)
(* the bounded sequence it stands for *)
RECURSIVE Run(_, _)
Run(s, i) == IF s = head THEN <<>>
             ELSE <<[i |-> i, at |-> s, done |-> flag[s] = "done" \/ (pc = "move" /\ s = ct), ts |-> FALSE, cat |-> 0, sub |-> 0]>> \o Run(Nx(s), i + 1)
A == INSTANCE PCQueue WITH cap <- N - 1, q <- Run(tail, Len(got))
Q == Run(tail, Len(got))
AllocStep == A!Alloc(made, ph, FALSE, 0, 0)
Refines == [][Q' # Q => AllocStep \/ (\E k \in 1..Len(Q) : A!Complete(Q[k].i)) \/ A!Free]_vars
=============================================================================
