------------------------------- MODULE Owners -------------------------------
(* Which object owns an address.  Objects are aligned power-of-two ranges,   *)
(* nested or apart.                                                          *)
EXTENDS Integers, FiniteSets, TLC
VARIABLE objs           \* {[k |-> what it is, a |-> base, s |-> size]}
In(o, x) == o.a <= x /\ x < o.a + o.s
Over(x) == {o \in objs : In(o, x)}
Inner(S) == CHOOSE o \in S : \A p \in S : o.s <= p.s
Owner(x) == Inner(Over(x))
Inside(o, p) == p.a <= o.a /\ o.a + o.s <= p.a + p.s
Apart2(o, p) == o.a + o.s <= p.a \/ p.a + p.s <= o.a
Placed(o) == o.a % o.s = 0 /\ \A p \in objs : Apart2(o, p) \/ (Inside(o, p) /\ o.s < p.s)
New(k, a, s) == LET o == [k |-> k, a |-> a, s |-> s] IN Placed(o) /\ objs' = objs \cup {o}
Gone(a, s) == \E o \in objs : o.a = a /\ o.s = s /\ objs' = {p \in objs : ~Inside(p, o)}
Laminar == \A o, p \in objs : o = p \/ Apart2(o, p) \/ (Inside(o, p) /\ o.s < p.s) \/ (Inside(p, o) /\ p.s < o.s)
=============================================================================
