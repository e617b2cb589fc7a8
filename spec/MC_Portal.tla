------------------------------ MODULE MC_Portal ------------------------------
EXTENDS Portal, Json
CONSTANTS Cap, Sizes, CircAt, Lens, MaxMade
S23 == <<2, 3>>
S212 == <<2, 1, 2>>
S122 == <<1, 2, 2>>
VARIABLES made, it, hist, opened
vars == <<pvars, made, it, hist, opened>>
NoIt == [n |-> 0, at |-> 1, ids |-> <<>>, k |-> 1, off |-> FALSE]
Init == cap = Cap /\ list = <<>> /\ cur = 1 /\ pool = [x \in DOMAIN Sizes |-> Fresh(Sizes[x], x = CircAt)]
        /\ made = <<>> /\ it = NoIt /\ opened = 0 /\ hist = <<>>
Do(w) == hist' = Append(hist, w)
In(x) == \E k \in 1..Len(list) : list[k] = x
MAdd(x) == ~In(x) /\ (x = 1 \/ In(x - 1) \/ Len(list) = cap) /\ Add(x) /\ UNCHANGED <<made, it, opened>> /\ Do(<<"D", x - 1>>)
Gone == \E k \in 1..Len(it.ids) : ~\E x \in DOMAIN pool' : \E j \in 1..Len(pool'[x].log) : pool'[x].log[j].i = it.ids[k]
MAlloc(n) == /\ Len(made) < MaxMade
             /\ \/ Alloc(Len(made) + 1, n, 0, 0) /\ made' = Append(made, list[cur'])
                \/ Refuse(n) /\ made' = made
             /\ it' = (IF Gone THEN NoIt ELSE it)
             /\ UNCHANGED opened /\ Do(<<"A", n>>)
MComplete(i) == Live(i) /\ ~Entry(Of(i)).done /\ Complete(i) /\ UNCHANGED <<made, it, opened>> /\ Do(<<"C", i>>)
MOpen == opened < 2 /\ list # <<>> /\ it' = Iterator /\ opened' = opened + 1 /\ UNCHANGED <<pvars, made>> /\ Do(<<"O">>)
Shift(i) == IF MayGoOn(i) /\ ~Left(i) /\ Further(i) THEN GoneOn(i) ELSE i
MNext == it # NoIt /\ LET j == Shift(Shift(it)) IN it' = (IF HasNext(j) THEN Given(j) ELSE j)
         /\ UNCHANGED <<pvars, made, opened>> /\ Do(<<"N">>)
MClear(x) == In(x) /\ pool[x].next # 0 /\ Clear(x) /\ it' = NoIt /\ UNCHANGED <<made, opened>> /\ Do(<<"R", x - 1>>)
Next == \/ \E x \in DOMAIN Sizes : MAdd(x) \/ MClear(x)
        \/ \E n \in Lens : MAlloc(n)
        \/ \E i \in 1..Len(made) : MComplete(i)
        \/ MOpen \/ MNext
Short == Len(hist) < 14
EmitAll == PrintT(<<"SCRIPT", ToJson(hist')>>)
View == <<pvars, it, Len(made), opened>>
(* without resets the logs together hold everything, each log a stretch of it, in order *)
Resets == \E k \in 1..Len(hist) : hist[k][1] = "R"
All == [k \in 1..Len(list) |-> Seen(list[k])]
Kept == ~Resets /\ CircAt = 0 => \A i \in 1..Len(made) : Live(i) /\ Of(i)[1] = made[i]
Ordered == ~Resets => \A v, w \in Ids : \A j, k \in 1..Len(list) : list[j] = v[1] /\ list[k] = w[1] /\ j < k => Entry(v).i < Entry(w).i
(* nothing is skipped without being shut *)
Behind == ~Resets => \A k \in 1..(cur - 1) : k <= Len(list) => pool[list[k]].next > pool[list[k]].size
=============================================================================
