------------------------------ MODULE LockTable ------------------------------
(* The lock manager's algorithm, one step per section under a spin lock and  *)
(* per semaphore operation: the lock objects of one slot of the table, each  *)
(* with its counts, semaphores and reader slots, and the slot's own lock.    *)
(* Shown here: it implements RWLocks, and it never stops for a reason other  *)
(* than a lock being held.  The code is bound to RWLocks by RWLocksTrace.    *)
(*   KeepAddr    the object keeps its address while anybody holds or waits   *)
(*   DrainSem    the writer that waits for readers has its own semaphore     *)
(*   WaitSlot    a reader waits when there is no slot to track it in         *)
(* The code as found had all three off.                                      *)
EXTENDS RWLocks, Sequences, TLC
CONSTANTS T, A, MaxR, MaxAsk, MaxN, KeepAddr, DrainSem, WaitSlot
VARIABLES node,         \* the list of lock objects
          list,         \* who has the slot's lock, 0: nobody
          th            \* per thread: where it is and what it is about
vars == <<held, want, node, list, th>>
Null == 0
Fresh == [addr |-> Null, ex |-> FALSE, rw |-> 0, ww |-> 0, rsem |-> MaxR, wsem |-> 1, dr |-> FALSE, dsem |-> 0,
          wr |-> 0, wn |-> 0, rd |-> [t \in T |-> 0]]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Readers(n) == Sum(n.rd, T)
SlotFree(n) == Cardinality({t \in T : n.rd[t] > 0}) < MaxR
Idle == [pc |-> "idle", a |-> 0, w |-> FALSE, n |-> 0, pd |-> FALSE, pw |-> FALSE, pr |-> FALSE]
Init == /\ held = {} /\ want = {} /\ node = <<>> /\ list = 0
        /\ th = [t \in T |-> [Idle EXCEPT !.n = 0] @@ [asks |-> 0]]
Go(t, r) == th' = [th EXCEPT ![t] = r]
At(t, pc) == th[t].pc = pc
(* calls *)
CallLock(t, a, w) == /\ At(t, "idle") /\ th[t].asks < MaxAsk
                     /\ \A h \in held : h.t = t => h.a <= a /\ (h.a = a => h.n < MaxN)
                     /\ Ask(t, a, w)
                     /\ Go(t, [th[t] EXCEPT !.pc = "list", !.a = a, !.w = w, !.asks = @ + 1])
                     /\ UNCHANGED <<node, list>>
CallUnlock(t, a) == /\ At(t, "idle") /\ Release(t, a)
                    /\ Go(t, [th[t] EXCEPT !.pc = "ulist", !.a = a]) /\ UNCHANGED <<node, list>>
(* lockNode: take the list, choose the object *)
Where(a) == {i \in 1..Len(node) : node[i].addr = a}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
TakeList(t) == /\ At(t, "list") /\ list = 0 /\ list' = t
               /\ LET a == th[t].a
                      i == IF Where(a) # {} THEN First(Where(a)) ELSE IF Where(Null) # {} THEN First(Where(Null)) ELSE Len(node) + 1
                  IN /\ node' = IF i > Len(node) THEN Append(node, Fresh) ELSE node
                     /\ Go(t, [th[t] EXCEPT !.pc = "enter", !.n = i])
               /\ UNCHANGED <<held, want>>
(* the object's spin lock taken, the list given back *)
Granted(t) == Grant(t, th[t].a, th[t].w)
Waits == UNCHANGED <<held, want>>
ReadCheck(t, n, i) ==       \* the wait loop's test, with n the object as it is now
  IF n.ex \/ n.ww > 0 \/ (WaitSlot /\ ~SlotFree(n))
  THEN /\ node' = [node EXCEPT ![i] = [n EXCEPT !.rw = @ + 1]] /\ Go(t, [th[t] EXCEPT !.pc = "rsleep"]) /\ Waits
  ELSE IF ~SlotFree(n)     \* falls out of the loop over the slots with the spin lock held
       THEN /\ node' = [node EXCEPT ![i] = n] /\ Go(t, [th[t] EXCEPT !.pc = "lost"]) /\ Waits
       ELSE /\ node' = [node EXCEPT ![i] = [n EXCEPT !.rd[t] = 1, !.addr = th[t].a]]
            /\ Go(t, [th[t] EXCEPT !.pc = "idle"]) /\ Granted(t)
WriteCheck(t, n, i) ==
  IF n.ex
  THEN /\ node' = [node EXCEPT ![i] = [n EXCEPT !.ww = @ + 1]] /\ Go(t, [th[t] EXCEPT !.pc = "wsleep"]) /\ Waits
  ELSE /\ node' = [node EXCEPT ![i] = [n EXCEPT !.ex = TRUE]] /\ Waits
       /\ Go(t, [th[t] EXCEPT !.pc = "wpost", !.pw = n.ww > 0, !.pr = n.rw > 0])
Drain(t, n, i) ==
  IF Readers(n) > 0
  THEN /\ node' = [node EXCEPT ![i] = IF DrainSem THEN [n EXCEPT !.dr = TRUE] ELSE [n EXCEPT !.ww = @ + 1]]
       /\ Go(t, [th[t] EXCEPT !.pc = "dsleep"]) /\ Waits
  ELSE /\ node' = [node EXCEPT ![i] = [n EXCEPT !.wr = t, !.wn = 1, !.addr = th[t].a]]
       /\ Go(t, [th[t] EXCEPT !.pc = "idle"]) /\ Granted(t)
Lost == \E t \in T : At(t, "lost")    \* somebody keeps a spin lock
Enter(t) ==
  /\ At(t, "enter") /\ ~Lost /\ list' = 0
  /\ LET i == th[t].n
         n == IF KeepAddr THEN [node[i] EXCEPT !.addr = th[t].a] ELSE node[i]
     IN IF n.wr = t
        THEN node' = [node EXCEPT ![i] = [n EXCEPT !.wn = @ + 1, !.addr = th[t].a]] /\ Go(t, [th[t] EXCEPT !.pc = "idle"]) /\ Granted(t)
        ELSE IF th[t].w THEN WriteCheck(t, n, i)
        ELSE IF n.rd[t] > 0
        THEN node' = [node EXCEPT ![i] = [n EXCEPT !.rd[t] = @ + 1, !.addr = th[t].a]] /\ Go(t, [th[t] EXCEPT !.pc = "idle"]) /\ Granted(t)
        ELSE ReadCheck(t, n, i)
(* sleeping: the semaphore, then the spin lock again *)
Nod(t) == node[th[t].n]
Dec(x) == IF x > 0 THEN x - 1 ELSE 0
SemTake(t, pc, f, next) ==
  /\ At(t, pc)
  /\ CASE f = "r" -> Nod(t).rsem > 0 /\ node' = [node EXCEPT ![th[t].n].rsem = @ - 1]
       [] f = "w" -> Nod(t).wsem > 0 /\ node' = [node EXCEPT ![th[t].n].wsem = @ - 1]
       [] f = "d" -> Nod(t).dsem > 0 /\ node' = [node EXCEPT ![th[t].n].dsem = @ - 1]
  /\ Go(t, [th[t] EXCEPT !.pc = next]) /\ UNCHANGED <<held, want, list>>
ReadWake(t) == At(t, "rwake") /\ ~Lost /\ ReadCheck(t, [Nod(t) EXCEPT !.rw = Dec(@)], th[t].n) /\ UNCHANGED list
WriteWake(t) == At(t, "wwake") /\ ~Lost /\ WriteCheck(t, [Nod(t) EXCEPT !.ww = Dec(@)], th[t].n) /\ UNCHANGED list
DrainFirst(t) == At(t, "drain") /\ ~Lost /\ Drain(t, Nod(t), th[t].n) /\ UNCHANGED list
DrainWake(t) == At(t, "dwake") /\ ~Lost /\ UNCHANGED list
  /\ Drain(t, IF DrainSem THEN [Nod(t) EXCEPT !.dr = FALSE] ELSE [Nod(t) EXCEPT !.ww = Dec(@)], th[t].n)
(* posting, outside the spin lock: one writer; as many readers as wait at that time *)
PostW(t, pc, next) == /\ At(t, pc) /\ Go(t, [th[t] EXCEPT !.pc = next, !.pw = FALSE]) /\ UNCHANGED <<held, want, list>>
                      /\ node' = IF th[t].pw THEN [node EXCEPT ![th[t].n].wsem = @ + 1] ELSE node
PostR(t, pc, next) == /\ At(t, pc) /\ Go(t, [th[t] EXCEPT !.pc = next, !.pr = FALSE]) /\ UNCHANGED <<held, want, list>>
                      /\ node' = IF th[t].pr THEN [node EXCEPT ![th[t].n].rsem = @ + Nod(t).rw] ELSE node
(* unlockNode: the list is held throughout *)
UTake(t) == /\ At(t, "ulist") /\ list = 0 /\ list' = t
            /\ Where(th[t].a) # {}         \* else the code asserts
            /\ Go(t, [th[t] EXCEPT !.pc = "unlock", !.n = First(Where(th[t].a))])
            /\ UNCHANGED <<held, want, node>>
Clear(n) == IF n.rw = 0 /\ n.ww = 0 THEN [n EXCEPT !.addr = Null] ELSE n
Unlock(t) ==
  /\ At(t, "unlock") /\ ~Lost
  /\ LET i == th[t].n
         n == node[i]
     IN IF Readers(n) > 0
        THEN LET m == [n EXCEPT !.rd[t] = Dec(@)]
                 last == Readers(n) = 1
             IN /\ node' = [node EXCEPT ![i] = IF ~last THEN m ELSE IF ~KeepAddr THEN [m EXCEPT !.addr = Null]
                                               ELSE IF ~n.ex THEN Clear(m) ELSE m]
                /\ Go(t, [th[t] EXCEPT !.pc = "upost", !.pd = DrainSem /\ last /\ n.dr, !.pw = ~DrainSem /\ last /\ n.ww > 0,
                                       !.pr = WaitSlot /\ m.rd[t] = 0 /\ n.rd[t] > 0 /\ n.rw > 0])
        ELSE IF n.ex /\ n.wn > 1
        THEN node' = [node EXCEPT ![i].wn = @ - 1] /\ Go(t, [th[t] EXCEPT !.pc = "ulast"])
        ELSE LET m == [n EXCEPT !.wr = 0, !.wn = 0, !.ex = FALSE]
             IN /\ node' = [node EXCEPT ![i] = IF KeepAddr THEN Clear(m) ELSE [m EXCEPT !.addr = Null]]
                /\ Go(t, [th[t] EXCEPT !.pc = "upost", !.pw = n.ww > 0, !.pr = n.rw > 0])
  /\ UNCHANGED <<held, want, list>>
PostD(t) == /\ At(t, "upost") /\ Go(t, [th[t] EXCEPT !.pc = "upostw", !.pd = FALSE]) /\ UNCHANGED <<held, want, list>>
            /\ node' = IF th[t].pd THEN [node EXCEPT ![th[t].n].dsem = @ + 1] ELSE node
ULast(t) == At(t, "ulast") /\ list' = 0 /\ Go(t, [th[t] EXCEPT !.pc = "idle"]) /\ UNCHANGED <<held, want, node>>
Inside(t) ==
  \/ TakeList(t) \/ Enter(t)
  \/ SemTake(t, "rsleep", "r", "rwake") \/ ReadWake(t)
  \/ SemTake(t, "wsleep", "w", "wwake") \/ WriteWake(t)
  \/ PostW(t, "wpost", "wpostr") \/ PostR(t, "wpostr", "drain") \/ DrainFirst(t)
  \/ SemTake(t, "dsleep", IF DrainSem THEN "d" ELSE "w", "dwake") \/ DrainWake(t)
  \/ UTake(t) \/ Unlock(t) \/ PostD(t) \/ PostW(t, "upostw", "upostr") \/ PostR(t, "upostr", "ulast") \/ ULast(t)
Next == \E t \in T : Inside(t) \/ (\E a \in A : CallUnlock(t, a) \/ \E w \in BOOLEAN : CallLock(t, a, w))
Spec == Init /\ [][Next]_vars
(* a thread in a call can go on *)
Can(t) == CASE th[t].pc \in {"list", "ulist"} -> list = 0 /\ (At(t, "ulist") => Where(th[t].a) # {})
            [] At(t, "rsleep") -> Nod(t).rsem > 0
            [] At(t, "wsleep") -> Nod(t).wsem > 0
            [] At(t, "dsleep") -> IF DrainSem THEN Nod(t).dsem > 0 ELSE Nod(t).wsem > 0
            [] th[t].pc \in {"idle", "lost"} -> FALSE
            [] th[t].pc \in {"enter", "rwake", "wwake", "drain", "dwake", "unlock"} -> ~Lost
            [] OTHER -> TRUE
Moving == \E t \in T : Can(t)
(* nobody stays in a call but for a lock that others hold: whoever holds the address asked for, or a writer before us in the queue *)
May2(q) == \/ Others(q.t, q.a) = {}
           \/ ~q.w /\ ~(\E h \in Others(q.t, q.a) : h.w) /\ ~(\E p \in want : p.a = q.a /\ p.w) /\ Cardinality(Others(q.t, q.a)) < MaxR
Unlocking(t) == th[t].pc \in {"ulist", "unlock", "upost", "upostw", "upostr", "ulast"}
Progress == ~Moving => /\ \A t \in T : ~Unlocking(t)
                       /\ \A q \in want : ~May2(q)
(* one object per address, and the objects know who holds what *)
OneEach == \A i, j \in 1..Len(node) : node[i].addr = node[j].addr /\ node[i].addr # Null => i = j
Known == \A h \in held : Unlocking(h.t) \/ \E i \in 1..Len(node) :
            node[i].addr = h.a /\ (IF h.w THEN node[i].wr = h.t /\ node[i].wn = h.n ELSE node[i].rd[h.t] = h.n)
(* refinement: every step is a step of RWLocks *)
Abstract == [][\E t \in T, a \in A : Release(t, a) \/ \E w \in BOOLEAN : Ask(t, a, w) \/ Grant(t, a, w)]_<<held, want>>
Sym == Permutations(T)
=============================================================================
