------------------------------ MODULE MC_Logger ------------------------------
(* All histories of a small log.  made: the identities of all entries since  *)
(* the last reset.                                                           *)
EXTENDS Logger, Json
CONSTANTS Size, Circ, Lens, Stride, MaxMade
VARIABLES made, it, hist, opened
vars == <<lvars, made, it, hist, opened>>
Init == size = Size /\ circ = Circ /\ next = 0 /\ wrapped = FALSE /\ log = <<>> /\ made = <<>> /\ it = [ids |-> <<>>, k |-> 1] /\ opened = 0 /\ hist = <<>>
Do(w) == hist' = Append(hist, w)
Id == Len(made) + 1
NoIt == [ids |-> <<>>, k |-> 1]
Gone == \E k \in 1..Len(it.ids) : ~\E j \in 1..Len(log') : log'[j].i = it.ids[k]
MAlloc(n) == /\ Len(made) < MaxMade
             /\ \/ Alloc(Id, n, 0, 0, TRUE) /\ made' = Append(made, Id)
                \/ Refuse(n) /\ made' = made
             /\ it' = IF Gone THEN NoIt ELSE it
             /\ UNCHANGED opened /\ Do(<<"A", n>>)
MComplete(k) == Complete(log[k].i) /\ ~log[k].done /\ UNCHANGED <<made, it, opened>> /\ Do(<<"C", k - 1>>)
MOpen == opened < 2 /\ it' = Iterator /\ opened' = opened + 1 /\ UNCHANGED <<lvars, made>> /\ Do(<<"O">>)
MNext == it # NoIt /\ it' = (IF HasNext(it) THEN [it EXCEPT !.k = @ + 1] ELSE it) /\ UNCHANGED <<lvars, made, opened>> /\ Do(<<"N">>)
MReset == made # <<>> /\ Reset /\ made' = <<>> /\ it' = NoIt /\ UNCHANGED opened /\ Do(<<"R">>)
Next == \/ \E n \in Lens : MAlloc(n)
        \/ \E k \in 1..Len(log) : MComplete(k)
        \/ MOpen \/ MNext \/ MReset
Short == Len(hist) < 14
EmitAll == PrintT(<<"SCRIPT", ToJson(hist')>>)
View == <<lvars, it, Len(made), opened>>
Ids == [k \in 1..Len(log) |-> log[k].i]
(* nothing is lost in a simple log; a circular one keeps the newest, without a hole *)
Kept == IF ~circ THEN Ids = made
        ELSE \A k \in 1..Len(Ids) : Ids[k] = made[Len(made) - Len(Ids) + k]
(* with one entry length a circular log that has wrapped is always full of the newest *)
FullOfNewest == circ /\ Lens = {Stride} /\ wrapped => Len(log) = Size \div Stride
(* an iterator never goes back in time *)
Forward == \A j, k \in 1..Len(it.ids) : j < k => it.ids[j] < it.ids[k]
=============================================================================
