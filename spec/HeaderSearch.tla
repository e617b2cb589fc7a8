---------------------------- MODULE HeaderSearch ----------------------------
(* The search SASFindHeader makes: from the smallest block size to the       *)
(* largest it looks for a header at the aligned address below.  hdr says     *)
(* which headers memory holds; a header outlives its object when nobody      *)
(* clears it.  Two objects never start at the same address (the outer one    *)
(* keeps its header there).                                                  *)
EXTENDS Owners, Sequences, Json
CONSTANTS Units, Covers, Clears   \* Covers: the search checks that the header's size covers the address; Clears: a dying object's inner headers are cleared
VARIABLES hdr, hist
vars == <<objs, hdr, hist>>
Sizes == {s \in 1..Units : \E i \in 0..6 : s = 2^i}
Addr == 0..(Units - 1)
Down(x, s) == (x \div s) * s
RECURSIVE Search(_, _)
Search(x, s) == IF s > Units THEN -1
                ELSE LET b == Down(x, s) IN
                     IF hdr[b] > 0 /\ (Covers => x < b + hdr[b]) THEN b ELSE Search(x, 2 * s)
Init == objs = {} /\ hdr = [x \in Addr |-> 0] /\ hist = <<>>
Create(a, s) == /\ \A o \in objs : o.a # a
                /\ a % s = 0 /\ a + s <= Units /\ New("h", a, s) /\ (objs = {} => s > 1)
                /\ hdr' = [hdr EXCEPT ![a] = s]
                /\ hist' = Append(hist, <<"N", a, s>>)
Destroy(o) == LET a == o.a IN
              /\ Gone(a, o.s)
              /\ hdr' = [x \in Addr |-> IF x = a \/ (Clears /\ In(o, x)) THEN 0 ELSE hdr[x]]
              /\ hist' = Append(hist, <<"D", a>>)
Next == \/ \E a \in Addr, s \in Sizes : Create(a, s)
        \/ \E o \in objs : Destroy(o)
View == <<objs, hdr>>
Found == \A x \in Addr : Over(x) # {} => Search(x, 1) = Owner(x).a
Bound == Cardinality(objs) <= 4
EmitAll == PrintT(<<"SCRIPT", ToJson(hist')>>)
=============================================================================
