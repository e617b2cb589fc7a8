-------------------------------- MODULE Ident -------------------------------
(* Who is alive, and what each of them may be told about itself; times are   *)
(* pairs of seconds and billionths.                                          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES live,     \* handle -> [pid, tid]
          last      \* handle -> the latest time it was told
ivars == <<live, last>>
G == 1000000000
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Time(a) == a[2] \in 0..(G - 1)
(* sums and differences of times; a difference may be negative: its seconds are *)
Plus(a, b) == LET n == a[2] + b[2] IN IF n >= G THEN <<a[1] + b[1] + 1, n - G>> ELSE <<a[1] + b[1], n>>
Minus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + G - b[2]>>
Micro(a) == <<a[1], a[2] \div 1000>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Nobody == live = [h \in {} |-> 0] /\ last = [h \in {} |-> 0]
Born(h, p, t) == /\ h \notin DOMAIN live /\ (\A k \in DOMAIN live : live[k].tid # t)
                 /\ live' = Put(live, h, [pid |-> p, tid |-> t]) /\ last' = Put(last, h, <<0, 0>>)
Gone(h) == h \in DOMAIN live /\ live' = Drop(live, h) /\ last' = Drop(last, h)
Told(h, f, v) == v = (IF f \in {"pid", "fpid"} THEN live[h].pid ELSE live[h].tid)
(* a time told between two readings of the clock *)
Timed(h, b, v, a) == /\ Time(v) /\ Leq(b, v) /\ Leq(v, a) /\ Leq(last[h], v) /\ last' = [last EXCEPT ![h] = v] /\ UNCHANGED live
Stamped(h, p, t) == p = live[h].pid % 65536 /\ t = live[h].tid % 65536
(* the clock's reading v, put on the scale that is f away *)
Conv(v, f, r) == Time(r) /\ r = Plus(v, f)
ConvMicro(v, f, r) == r[2] \in 0..999999 /\ LET m == Micro(Plus(v, f)) IN
  r = m \/ r = (IF m[2] = 999999 THEN <<m[1] + 1, 0>> ELSE <<m[1], m[2] + 1>>)
Within(v, lo, hi) == Leq(lo, v) /\ Leq(v, hi)
Distinct == \A h, k \in DOMAIN live : h # k => live[h].tid # live[k].tid
=============================================================================
