----------------------------- MODULE PortalList -----------------------------
(* The portal's list as the code handles it, one access to shared memory per *)
(* step: threads add logs and take entries (of one unit each) at once.       *)
(* Variants: "store late" counts a log before it is in its slot; "count      *)
(* first" reads the number of logs before the number of the current one.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Adders, Takers, Cap, Room, Takes, Variant, Begin
(* Room: name of a log -> its units; Adders: thread -> the log it adds; Takes: entries each taker takes *)
Two == (11 :> 2) @@ (12 :> 3)
Three == (11 :> 1) @@ (12 :> 2) @@ (13 :> 3)
One == (11 :> 3)
R111 == <<1, 1, 1>>
R122 == <<1, 2, 1>>
VARIABLES slot, nf, cur, used, pc, r, left, sawnone, granted, sawfull
vars == <<slot, nf, cur, used, pc, r, left, sawnone, granted, sawfull>>
A == DOMAIN Adders
T == A \cup Takers
Init == /\ slot = [k \in 0..Cap |-> IF k < Begin THEN k + 1 ELSE 0] /\ nf = Begin /\ cur = 0 /\ used = [x \in DOMAIN Room |-> 0]
        /\ pc = [t \in T |-> IF t \in A THEN "a1" ELSE "idle"]
        /\ r = [t \in T |-> [nf |-> 0, cur |-> 0, done |-> FALSE]]
        /\ left = [t \in T |-> Takes] /\ sawnone = [t \in T |-> FALSE] /\ granted = 0 /\ sawfull = [t \in T |-> FALSE]
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
Set(t, f, v) == r' = [r EXCEPT ![t][f] = v]
Loc == UNCHANGED <<slot, nf, cur, used, left, granted>>
(* adding *)
A1(t) == pc[t] = "a1" /\ Variant # "late" /\ Set(t, "nf", nf) /\ Goto(t, IF nf < Cap THEN "a2" ELSE "refused") /\ Loc
A2(t) == pc[t] = "a2" /\ Goto(t, "a3") /\ UNCHANGED <<nf, cur, used, left, granted>>
          /\ IF slot[r[t].nf] = 0 THEN slot' = [slot EXCEPT ![r[t].nf] = Adders[t]] /\ Set(t, "done", TRUE) ELSE UNCHANGED slot /\ Set(t, "done", FALSE)
A3(t) == pc[t] = "a3" /\ nf' = (IF nf = r[t].nf THEN nf + 1 ELSE nf) /\ Goto(t, IF r[t].done THEN "added" ELSE "a1")
         /\ UNCHANGED <<slot, cur, used, left, r, granted>>
L1(t) == pc[t] = "a1" /\ Variant = "late" /\ Set(t, "nf", nf) /\ nf' = nf + 1 /\ Goto(t, IF nf < Cap THEN "l2" ELSE IF nf > Cap THEN "l3" ELSE "refused")
         /\ UNCHANGED <<slot, cur, used, left, granted>>
L2(t) == pc[t] = "l2" /\ slot' = [slot EXCEPT ![r[t].nf] = Adders[t]] /\ Goto(t, "added") /\ UNCHANGED <<nf, cur, used, left, r, granted>>
L3(t) == pc[t] = "l3" /\ nf' = nf - 1 /\ Goto(t, "refused") /\ UNCHANGED <<slot, cur, used, left, r, granted>>
(* taking *)
T0(t) == pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ Goto(t, IF Variant = "count" THEN "c1" ELSE "t1")
         /\ UNCHANGED <<slot, nf, cur, used, r, granted>>
T1(t) == pc[t] = "t1" /\ Set(t, "cur", cur) /\ Goto(t, "t2") /\ Loc
T2(t) == pc[t] = "t2" /\ Goto(t, IF nf > r[t].cur THEN "t3" ELSE "none") /\ UNCHANGED r /\ Loc
C1(t) == pc[t] = "c1" /\ Set(t, "nf", nf) /\ Goto(t, "c2") /\ Loc
C2(t) == pc[t] = "c2" /\ Set(t, "cur", cur) /\ Goto(t, IF r[t].nf > cur THEN "c3" ELSE "none") /\ Loc
C3(t) == pc[t] = "c3" /\ Set(t, "cur", cur) /\ Goto(t, "t3") /\ Loc
Try(t, x, yes, no) == IF used[x] < Room[x] THEN used' = [used EXCEPT ![x] = @ + 1] /\ granted' = granted + 1 /\ Goto(t, yes)
                      ELSE UNCHANGED <<used, granted>> /\ Goto(t, no)
T3(t) == pc[t] = "t3" /\ slot[r[t].cur] # 0 /\ Try(t, slot[r[t].cur], "got", "t4") /\ UNCHANGED <<slot, nf, cur, left, r>>
T4(t) == pc[t] = "t4" /\ Goto(t, IF r[t].cur + 1 < nf THEN "t5" ELSE "none") /\ UNCHANGED r /\ Loc
T5(t) == pc[t] = "t5" /\ IF cur = r[t].cur THEN cur' = cur + 1 /\ Goto(t, "t6") ELSE UNCHANGED cur /\ Goto(t, "t1")
T5b(t) == T5(t) /\ UNCHANGED <<slot, nf, used, left, r, granted>>
T6(t) == pc[t] = "t6" /\ slot[r[t].cur + 1] # 0 /\ Try(t, slot[r[t].cur + 1], "got", "t1") /\ UNCHANGED <<slot, nf, cur, left, r>>
Back(t) == pc[t] \in {"got", "none"} /\ Goto(t, "idle") /\ UNCHANGED r /\ Loc
Step(t) == A1(t) \/ A2(t) \/ A3(t) \/ L1(t) \/ L2(t) \/ L3(t) \/ T0(t) \/ T1(t) \/ T2(t) \/ C1(t) \/ C2(t) \/ C3(t) \/ T3(t) \/ T4(t) \/ T5b(t) \/ T6(t) \/ Back(t)
(* what a caller could have seen: since its call began, was there an instant without room; one with a full list *)
Fit(n, s, u) == \E k \in 0..(n - 1) : k <= Cap /\ s[k] # 0 /\ u[s[k]] < Room[s[k]]
NoRoom == ~Fit(nf, slot, used)
Next == \E t \in T : /\ Step(t)
                     /\ sawnone' = [w \in T |-> IF w = t /\ pc[t] = "idle" THEN NoRoom' ELSE sawnone[w] \/ NoRoom']
                     /\ sawfull' = [w \in T |-> sawfull[w] \/ nf >= Cap]
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Counted == nf <= Cap
(* a thread never meets a slot that is counted but not filled *)
Filled == \A k \in 0..(nf - 1) : k <= Cap => slot[k] # 0
NeverVain == \A t \in T : pc[t] = "none" => sawnone[t]
RefusedFull == \A t \in T : pc[t] = "refused" => sawfull[t] \/ nf >= Cap
Once == \A j, k \in 0..Cap : j # k /\ slot[j] # 0 => slot[j] # slot[k]
InRange == nf > 0 => cur < nf
Finished == \A t \in T : pc[t] \in {"added", "refused"} \/ (pc[t] = "idle" /\ left[t] = 0)
NoStuck == ENABLED Next \/ Finished
=============================================================================
