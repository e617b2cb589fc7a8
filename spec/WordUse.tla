------------------------------ MODULE WordUse -------------------------------
(* Threads that count in one word, and enter a section one at a time with    *)
(* the help of another.  Split, Half, Peek: implementations that get it      *)
(* wrong, and are to be refuted.                                             *)
EXTENDS Word, FiniteSets
CONSTANTS T, K,      \* threads, turns of each
          Split,     \* adding reads, then writes
          HalfOnly,  \* adding stops at the lower half
          Peek       \* taking the lock looks first, then writes
VARIABLES a, lock, pc, tmp, k, done
vars == <<a, lock, pc, tmp, k, done>>
D(t) == IF k[t] % 2 = 0 THEN One ELSE [i \in 1..L |-> (B - 1) % (i + 1)]
Init == a = Ones /\ lock = Zero /\ pc = [t \in T |-> "idle"] /\ tmp = [t \in T |-> Zero] /\ k = [t \in T |-> 0] /\ done = Ones
Sum(x, d) == IF HalfOnly THEN Put(x, Low(Add(x, d))) ELSE Add(x, d)
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Step(t) ==
  \/ /\ pc[t] = "idle" /\ k[t] < K /\ ~Split /\ a' = Sum(a, D(t)) /\ done' = Add(done, D(t))
     /\ Go(t, "want") /\ UNCHANGED <<lock, tmp, k>>
  \/ pc[t] = "idle" /\ k[t] < K /\ Split /\ tmp' = [tmp EXCEPT ![t] = a] /\ Go(t, "write") /\ UNCHANGED <<a, lock, k, done>>
  \/ /\ pc[t] = "write" /\ a' = Sum(tmp[t], D(t)) /\ done' = Add(done, D(t)) /\ Go(t, "want")
     /\ UNCHANGED <<lock, tmp, k>>
  \/ pc[t] = "want" /\ ~Peek /\ Ready("spin", lock) /\ lock' = After("spin", lock, Zero, Zero) /\ Go(t, "in") /\ UNCHANGED <<a, tmp, k, done>>
  \/ pc[t] = "want" /\ Peek /\ Ready("spin", lock) /\ Go(t, "take") /\ UNCHANGED <<a, lock, tmp, k, done>>
  \/ pc[t] = "take" /\ lock' = After("spin", Zero, Zero, Zero) /\ Go(t, "in") /\ UNCHANGED <<a, tmp, k, done>>
  \/ pc[t] = "in" /\ lock' = After("spinfree", lock, Zero, Zero) /\ k' = [k EXCEPT ![t] = @ + 1] /\ Go(t, "idle") /\ UNCHANGED <<a, tmp, done>>
Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t))
Types == IsWord(a) /\ IsWord(lock)
NoneLost == (\A t \in T : pc[t] # "write") => a = done
OneInside == Cardinality({t \in T : pc[t] = "in"}) <= 1
FreeAfter == (\A t \in T : pc[t] \notin {"in", "take"}) => lock = Zero
Through == <>(\A t \in T : k[t] = K)
(* arithmetic: subtraction undoes addition, halves stay apart, bits *)
AllW == [1..L -> 0..(B - 1)]
Arith == \A x, y \in AllW : /\ Add(x, y) = Add(y, x) /\ Add(Add(x, y), Ones) = Add(x, Add(y, Ones))
                            /\ AndW(x, y) = AndW(y, x) /\ OrW(x, AndW(x, y)) = x /\ Add(AndW(x, y), OrW(x, y)) = Add(x, y)
                            /\ Put(y, Low(Put(x, y))) = y /\ MakeOdd(Even(x)) = MakeOdd(x) /\ Even(MakeOdd(x)) = Even(x)
                            /\ After("inc", After("dec", x, y, y), y, y) = x
=============================================================================
