------------------------------ MODULE RWLocks ------------------------------
(* Locks on addresses: at any moment nobody, one writer, or any number of    *)
(* readers hold an address; a holder may take it again.                      *)
EXTENDS Integers, FiniteSets
VARIABLES held,         \* {[t |-> thread, a |-> address, w |-> as writer, n |-> how often]}
          want          \* {[t, a, w]}: who has asked and waits
Mine(t, a) == {h \in held : h.t = t /\ h.a = a}
Others(t, a) == {h \in held : h.t # t /\ h.a = a}
Free4(t, a, w) == Others(t, a) = {} \/ (~w /\ \A h \in Others(t, a) : ~h.w)
(* a holder asks again: a writer for either, a reader to read *)
MayAsk(t, a, w) == /\ \A q \in want : q.t # t
                   /\ \A h \in Mine(t, a) : h.w \/ ~w
Ask(t, a, w) == MayAsk(t, a, w) /\ want' = want \cup {[t |-> t, a |-> a, w |-> w]} /\ UNCHANGED held
Take(t, a, w) ==
  /\ [t |-> t, a |-> a, w |-> w] \in want
  /\ want' = want \ {[t |-> t, a |-> a, w |-> w]}
  /\ held' = IF Mine(t, a) = {} THEN held \cup {[t |-> t, a |-> a, w |-> w, n |-> 1]}
             ELSE {IF h \in Mine(t, a) THEN [h EXCEPT !.n = @ + 1] ELSE h : h \in held}
Grant(t, a, w) == Free4(t, a, w) /\ Take(t, a, w)
Release(t, a) ==
  /\ Mine(t, a) # {}
  /\ held' = {IF h \in Mine(t, a) THEN [h EXCEPT !.n = @ - 1] ELSE h : h \in held} \ {[h EXCEPT !.n = 0] : h \in Mine(t, a)}
  /\ UNCHANGED want
Exclusive == \A h, g \in held : h.a = g.a /\ h.t # g.t => ~h.w /\ ~g.w
=============================================================================
