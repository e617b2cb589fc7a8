------------------------------- MODULE Portal -------------------------------
(* A log portal as its users see it: a list of logs, of which one is the     *)
(* current one.  An entry goes into the current log; when that has no room   *)
(* for it, it is shut and the next log of the list, if there is one, becomes *)
(* the current one.  Nothing is refused while a log further on has room.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cap,       \* how many logs the list can hold
          list,      \* names of the logs, in the order they were added
          cur,       \* number of the current one
          pool       \* name -> [size, circ, next, log: entries oldest first, [i, at, len, done, cat, sub]]
pvars == <<cap, list, cur, pool>>
Fresh(n, c) == [size |-> n, circ |-> c, next |-> 0, log |-> <<>>]
Add(x) == IF Len(list) < cap THEN list' = Append(list, x) /\ UNCHANGED <<cap, cur, pool>> ELSE UNCHANGED pvars
Added(x) == Len(list) < cap
Room(p, n) == p.next + n <= p.size
Grants(p, n) == n <= p.size /\ (Room(p, n) \/ p.circ)
Place(p, n) == IF Room(p, n) THEN p.next ELSE 0
Put(p, i, n, cat, sub) ==
  LET a == Place(p, n) IN
  [p EXCEPT !.next = a + n,
            !.log = Append(SelectSeq(@, LAMBDA e : e.at + e.len <= a \/ e.at >= a + n),
                           [i |-> i, at |-> a, len |-> n, done |-> FALSE, cat |-> cat, sub |-> sub])]
Shut(p) == [p EXCEPT !.next = p.size + 1]
Full(p) == p.next >= p.size
Here == list[cur]
(* the three things that can happen to a request while it is under way *)
Grant(i, n, cat, sub) ==
  /\ cur <= Len(list) /\ Grants(pool[Here], n)
  /\ pool' = [pool EXCEPT ![Here] = Put(@, i, n, cat, sub)] /\ UNCHANGED <<cap, list, cur>>
Turn(n) ==        \* the current log has no room for it, so it is shut
  /\ cur <= Len(list) /\ ~Grants(pool[Here], n)
  /\ pool[Here].next # pool[Here].size + 1
  /\ pool' = [pool EXCEPT ![Here] = Shut(@)] /\ UNCHANGED <<cap, list, cur>>
Advance ==        \* and the next one is the current one
  /\ cur < Len(list) /\ pool[Here].next > pool[Here].size
  /\ cur' = cur + 1 /\ UNCHANGED <<cap, list, pool>>
Refused == cur > Len(list) \/ (cur = Len(list) /\ pool[Here].next > pool[Here].size)
(* one caller alone: the first log from the current one on that has room *)
Takes(n) == {k \in cur..Len(list) : Grants(pool[list[k]], n)}
First(S) == CHOOSE k \in S : \A j \in S : k <= j
Where(n) == IF Takes(n) = {} THEN Len(list) + 1 ELSE First(Takes(n))
Passed(n) == [x \in DOMAIN pool |-> IF \E k \in cur..(Where(n) - 1) : list[k] = x THEN Shut(pool[x]) ELSE pool[x]]
Alloc(i, n, cat, sub) ==
  LET k == Where(n) IN
  /\ k <= Len(list)
  /\ pool' = [Passed(n) EXCEPT ![list[k]] = Put(@, i, n, cat, sub)] /\ cur' = k
  /\ UNCHANGED <<cap, list>>
Refuse(n) ==
  /\ Takes(n) = {} /\ pool' = Passed(n)
  /\ cur' = (IF list = <<>> THEN cur ELSE Len(list)) /\ UNCHANGED <<cap, list>>
Ids == UNION {{<<x, k>> : k \in 1..Len(pool[x].log)} : x \in DOMAIN pool}
Entry(w) == pool[w[1]].log[w[2]]
Of(i) == CHOOSE w \in Ids : Entry(w).i = i
Live(i) == \E w \in Ids : Entry(w).i = i
Complete(i) == Live(i) /\ pool' = [pool EXCEPT ![Of(i)[1]].log[Of(i)[2]].done = TRUE] /\ UNCHANGED <<cap, list, cur>>
Clear(x) == pool' = [pool EXCEPT ![x] = [@ EXCEPT !.next = 0, !.log = <<>>]] /\ UNCHANGED <<cap, list, cur>>
(* an iterator goes through the logs in their order, in each through the entries there when it came; it may stop at one *)
(* that is not complete, or go on to the next log.  off: it has found nothing more in this log and is on its way *)
Seen(x) == [k \in 1..Len(pool[x].log) |-> pool[x].log[k].i]
Iterator == [n |-> Len(list), at |-> 1, ids |-> Seen(list[1]), k |-> 1, off |-> FALSE]
Left(it) == it.k <= Len(it.ids) /\ Live(it.ids[it.k])
HasNext(it) == ~it.off /\ Left(it) /\ Entry(Of(it.ids[it.k])).done
NextOf(it) == Entry(Of(it.ids[it.k]))
Given(it) == [it EXCEPT !.k = @ + 1]
Further(it) == it.at < it.n
MayGoOn(it) == ~HasNext(it) /\ it.at < Len(list) /\ it.at <= it.n
GoneOn(it) == [it EXCEPT !.at = @ + 1, !.ids = Seen(list[it.at + 1]), !.k = 1, !.off = FALSE]
(* nothing more to give: at the end, or at an entry that is not complete *)
None(it) == ~HasNext(it) /\ (Left(it) \/ ~Further(it))
---------------------------------------------------------------------------
Inside == \A w \in Ids : Entry(w).at >= 0 /\ Entry(w).at + Entry(w).len <= pool[w[1]].size
Apart == \A v, w \in Ids : v # w => Entry(v).i # Entry(w).i /\ (v[1] = w[1] => Entry(v).at + Entry(v).len <= Entry(w).at \/ Entry(w).at + Entry(w).len <= Entry(v).at)
Bounded == Len(list) <= cap
Current == cur >= 1 /\ (list # <<>> => cur <= Len(list))
=============================================================================
