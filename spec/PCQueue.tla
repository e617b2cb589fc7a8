------------------------------ MODULE PCQueue ------------------------------
(* The single-producer single-consumer queue as its users see it: a bounded  *)
(* sequence of entries of equal size.  The producer allocates at one end,    *)
(* fills an entry in and completes it; the consumer is given the oldest      *)
(* entry once it is complete, and frees it.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cap,      \* number of entries that can be in the queue
          q         \* the entries in the order of allocation: [i, at, done, ts, cat, sub]; at: where it lies
Room == Len(q) < cap
Alloc(i, at, ts, cat, sub) ==
  /\ Room
  /\ \A k \in 1..Len(q) : q[k].at # at
  /\ q' = Append(q, [i |-> i, at |-> at, done |-> FALSE, ts |-> ts, cat |-> cat, sub |-> sub]) /\ UNCHANGED cap
At(i) == CHOOSE k \in 1..Len(q) : q[k].i = i
Live(i) == \E k \in 1..Len(q) : q[k].i = i
Complete(i) == Live(i) /\ q' = [q EXCEPT ![At(i)].done = TRUE] /\ UNCHANGED cap
(* completing through a template also names the entry's categories *)
CompleteAs(i, cat, sub) ==
  Live(i) /\ q' = [q EXCEPT ![At(i)] = [@ EXCEPT !.done = TRUE, !.cat = cat, !.sub = sub]] /\ UNCHANGED cap
Ready == q # <<>> /\ q[1].done
Free == Ready /\ q' = Tail(q) /\ UNCHANGED cap
Reset == q' = <<>> /\ UNCHANGED cap
---------------------------------------------------------------------------
Bounded == Len(q) <= cap
Distinct == \A j, k \in 1..Len(q) : j # k => q[j].i # q[k].i /\ q[j].at # q[k].at
=============================================================================
