------------------------------- MODULE Logger -------------------------------
(* A log as its users see it.  Entries lie one behind the other in the log's *)
(* space, in the order of their allocation.  A simple log refuses an entry   *)
(* for which no space is left, and counts as full from then on.  A circular  *)
(* log starts again at its beginning; the entries that the new ones overlap  *)
(* are gone, all others stay.  Offsets and lengths are in bytes.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES size,      \* bytes of the log's space
          circ,      \* whether it is circular
          next,      \* where the next entry starts; size + 1: a simple log that refused an entry
          wrapped,   \* whether a circular log has started again
          log        \* entries oldest first: [i, at, len, done, cat, sub, hdr]
lvars == <<size, circ, next, wrapped, log>>
Room(n) == next + n <= size
Without(a, b) == SelectSeq(log, LAMBDA e : e.at + e.len <= a \/ e.at >= b)
Put(e) == log' = Append(Without(e.at, e.at + e.len), e) /\ next' = e.at + e.len
(* where an entry of n bytes goes *)
Place(n) == IF Room(n) THEN next ELSE 0
Grants(n) == n <= size /\ (Room(n) \/ circ)
Alloc(i, n, cat, sub, hdr) ==
  /\ Grants(n)
  /\ Put([i |-> i, at |-> Place(n), len |-> n, done |-> FALSE, cat |-> cat, sub |-> sub, hdr |-> hdr])
  /\ wrapped' = (wrapped \/ ~Room(n))
  /\ UNCHANGED <<size, circ>>
(* a refusal shuts the log; one because the entry is larger than the whole log may leave it open *)
Refuse(n) ==
  /\ ~Grants(n)
  /\ \/ n > size /\ next' = next
     \/ ~circ /\ next' = size + 1
  /\ UNCHANGED <<size, circ, wrapped, log>>
Live(i) == \E k \in 1..Len(log) : log[k].i = i
At(i) == CHOOSE k \in 1..Len(log) : log[k].i = i
Complete(i) == Live(i) /\ log' = [log EXCEPT ![At(i)].done = TRUE] /\ UNCHANGED <<size, circ, next, wrapped>>
Space == IF next < size THEN size - next ELSE 0
Reset == log' = <<>> /\ next' = 0 /\ wrapped' = FALSE /\ UNCHANGED <<size, circ>>
(* nearly full: less than a cache line left *)
NearlyFull == Space <= 128
(* an iterator sees the entries that are there when it is made; it stops at one that is not complete *)
Iterator == [ids |-> [k \in 1..Len(log) |-> log[k].i], k |-> 1]
HasNext(it) == it.k <= Len(it.ids) /\ Live(it.ids[it.k]) /\ log[At(it.ids[it.k])].done
NextOf(it) == log[At(it.ids[it.k])]
---------------------------------------------------------------------------
Inside == \A k \in 1..Len(log) : log[k].at >= 0 /\ log[k].at + log[k].len <= size
Apart == \A j, k \in 1..Len(log) : j # k => log[j].at + log[j].len <= log[k].at \/ log[k].at + log[k].len <= log[j].at
=============================================================================
