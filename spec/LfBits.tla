------------------------------- MODULE LfBits -------------------------------
(* How the code keeps one word of the lock-free heap: a bit per free unit, a *)
(* bit for the last unit of every allocation, each changed by one atomic     *)
(* instruction.  Every step is one access to a shared word.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS T,          \* threads
          W,          \* units
          Lens,
          Rounds,     \* allocations per thread
          Cas,        \* the units are taken by compare and swap, else by a plain store
          MarkFirst   \* a free takes the end mark away before it gives the units back
VARIABLES avail, ends, pc, seen, len, at, k, owner, gave
vars == <<avail, ends, pc, seen, len, at, k, owner, gave>>
Units == 0..(W - 1)
Init == /\ avail = Units /\ ends = {} /\ pc = [t \in T |-> "idle"] /\ seen = [t \in T |-> {}] /\ len = [t \in T |-> 0]
        /\ at = [t \in T |-> 0] /\ k = [t \in T |-> 0] /\ owner = [u \in Units |-> {}] /\ gave = [t \in T |-> 0]
To(t, l) == pc' = [pc EXCEPT ![t] = l]
Run(u, n) == u..(u + n - 1)
Fit(S, n) == {u \in S : Run(u, n) \subseteq S}
Least(S) == CHOOSE u \in S : \A v \in S : u <= v
Start(t, n) == /\ pc[t] = "idle" /\ k[t] < Rounds /\ len' = [len EXCEPT ![t] = n] /\ k' = [k EXCEPT ![t] = @ + 1]
               /\ seen' = [seen EXCEPT ![t] = avail] /\ To(t, "search") /\ gave' = [gave EXCEPT ![t] = 0] /\ UNCHANGED <<avail, ends, at, owner>>
Search(t) == /\ pc[t] = "search"
             /\ IF Fit(seen[t], len[t]) = {} THEN To(t, "idle") /\ UNCHANGED at
                ELSE To(t, "swap") /\ at' = [at EXCEPT ![t] = Least(Fit(seen[t], len[t]))]
             /\ UNCHANGED <<avail, ends, seen, len, k, owner, gave>>
Swap(t) == /\ pc[t] = "swap"
           /\ IF ~Cas \/ avail = seen[t]
              THEN /\ avail' = seen[t] \ Run(at[t], len[t]) /\ To(t, "mark")
                   /\ owner' = [u \in Units |-> IF u \in Run(at[t], len[t]) THEN owner[u] \cup {t} ELSE owner[u]]
                   /\ UNCHANGED <<seen, gave>>
              ELSE /\ seen' = [seen EXCEPT ![t] = avail] /\ UNCHANGED <<avail, owner>>
                   (* it gives up when this happens twice *)
                   /\ gave' = [gave EXCEPT ![t] = @ + 1] /\ To(t, IF gave[t] = 1 THEN "idle" ELSE "search")
           /\ UNCHANGED <<ends, len, at, k>>
Mark(t) == /\ pc[t] = "mark" /\ ends' = ends \cup {at[t] + len[t] - 1} /\ To(t, "own") /\ UNCHANGED <<avail, seen, len, at, k, owner, gave>>
(* the owner frees: it reads where its allocation ends *)
EndOf(u) == Least({e \in ends : e >= u})
Read(t) == /\ pc[t] = "own" /\ {e \in ends : e >= at[t]} # {}
           /\ gave' = [gave EXCEPT ![t] = EndOf(at[t])] /\ To(t, IF MarkFirst THEN "unmark" ELSE "give") /\ UNCHANGED <<avail, ends, seen, len, at, k, owner>>
Unmark(t) == /\ pc[t] = "unmark" /\ ends' = ends \ {gave[t]} /\ To(t, IF MarkFirst THEN "give" ELSE "idle")
             /\ UNCHANGED <<avail, seen, len, at, k, owner, gave>>
Give(t) == /\ pc[t] = "give" /\ avail' = avail \cup at[t]..gave[t] /\ To(t, IF MarkFirst THEN "idle" ELSE "unmark")
           /\ owner' = [u \in Units |-> IF u \in at[t]..gave[t] THEN owner[u] \ {t} ELSE owner[u]]
           /\ UNCHANGED <<ends, seen, len, at, k, gave>>
Next == \E t \in T : (\E n \in Lens : Start(t, n)) \/ Search(t) \/ Swap(t) \/ Mark(t) \/ Read(t) \/ Unmark(t) \/ Give(t)
Spec == Init /\ [][Next]_vars
(* each unit has one owner at most, and is free exactly when it has none *)
Exclusive == \A u \in Units : Cardinality(owner[u]) <= 1
Exact == \A u \in Units : u \in avail <=> owner[u] = {}
(* an owner finds the end of its own allocation *)
OwnEnd == \A t \in T : pc[t] = "own" => {e \in ends : e >= at[t]} # {} /\ EndOf(at[t]) = at[t] + len[t] - 1
(* when nobody is under way, the marks are the ends of what is allocated *)
Marks == (\A t \in T : pc[t] \in {"idle", "own"}) => ends = {at[t] + len[t] - 1 : t \in {x \in T : pc[x] = "own"}}
=============================================================================
