----------------------------- MODULE SharedTrace -----------------------------
(* One object used by several threads, of one process or more: every call    *)
(* takes effect at one instant between its call and its return, and then as  *)
(* the object's own specification says (Heap, Stack, CompoundHeap,           *)
(* SortedMap, Context).  A call names its outcome.                           *)
EXTENDS TraceBase
VARIABLES heaps, stacks, spaces, ch, maps, enums, cx, proj, cur,   \* the state of those specifications; the object is number 0 or 1
          op,        \* thread -> what it is doing
          hold,      \* thread -> "R" or "W" while it has the object's lock of its own accord
          here       \* what there is: "none" or the kind of object
H == INSTANCE Heap
K == INSTANCE Stack
P == INSTANCE CompoundHeap
M == INSTANCE SortedMap
X == INSTANCE Context
hv == heaps  kv == <<stacks, spaces>>  pv == ch  mv == <<maps, enums>>  xv == <<cx, proj, cur>>
T == 0..15
Idle == [o |-> "none"]
Quiet == \A t \in T : op[t] = Idle
TInit == H!HeapInit /\ K!StackInit /\ P!CHInit /\ M!MapInit /\ X!CInit /\ op = [t \in T |-> Idle] /\ hold = [t \in T |-> ""] /\ here = "none" /\ l = 1
Bool(b) == IF b THEN 1 ELSE 0
KeyOf(v) == v \div 65536
HeapEffect(c) ==
  \/ c.o = "halloc" /\ c.out >= 0 /\ H!Alloc(0, H!Units(c.n), c.out)
  \/ c.o = "halloc" /\ c.out = -1 /\ (H!Units(c.n) >= heaps[0].cap \/ ~H!CanFit(heaps[0], H!Units(c.n))) /\ UNCHANGED hv
  \/ c.o = "hfree" /\ c.out = 0 /\ H!Free(0, c.a)
  \/ c.o = "hspace" /\ c.out = 16 * H!FreeUnits(heaps[0]) /\ UNCHANGED hv
  \/ c.o = "hempty" /\ c.out = Bool(H!IsEmpty(heaps[0])) /\ UNCHANGED hv
StackEffect(c) ==
  \/ c.o = "push" /\ c.out >= 0 /\ K!Push(0, K!Units(c.n), c.out)
  \/ c.o = "push" /\ c.out = -1 /\ K!PushFail(0, K!Units(c.n))
  \/ c.o = "cut" /\ c.out = 0 /\ K!Cut(0, c.a)
  \/ c.o = "sspace" /\ c.out = 16 * K!FreeUnits(0) /\ UNCHANGED kv
PagesEffect(c) ==
  \/ c.o = "page" /\ c.out >= 0 /\ (P!AllocIn(0, c.out) \/ P!AllocGrow(0, c.out))
  \/ c.o = "page" /\ c.out = -1 /\ P!AllocFail(0)
  \/ c.o = "pfree" /\ P!Free(0, c.a)
  \/ c.o = "pspace" /\ c.out = ch[0].psz * P!FreePages(0) /\ UNCHANGED pv
  \/ c.o = "pall" /\ c.out = ch[0].bsz * Cardinality(ch[0].blocks) /\ UNCHANGED pv
MapEffect(c) ==
  \/ c.o = "put" /\ c.out = 1 /\ M!Put(0, c.k, c.v)
  \/ c.o = "put" /\ c.out = 0 /\ M!PutRefused(0, c.k)
  \/ c.o = "rep" /\ (IF c.out # 0 THEN M!Replace(0, c.k, c.v, c.out) ELSE M!Absent(0, c.k))
  \/ c.o = "rem" /\ (IF c.out # 0 THEN M!Remove(0, c.k, c.out) ELSE M!Absent(0, c.k))
  \/ c.o = "get" /\ c.out = maps[0][c.k] /\ UNCHANGED mv
  \/ c.o = "has" /\ c.out = Bool(M!Has(0, c.k)) /\ UNCHANGED mv
  \/ c.o = "mempty" /\ c.out = Bool(M!Empty(0)) /\ UNCHANGED mv
  \/ c.o = "count" /\ c.out = Cardinality(M!Present(0)) /\ UNCHANGED mv
  \/ c.o = "min" /\ c.out >= -1 /\ M!IsMin(0, c.out) /\ UNCHANGED mv
  \/ c.o = "max" /\ c.out >= -1 /\ M!IsMax(0, c.out) /\ UNCHANGED mv
  \/ c.o = "enum" /\ c.out = 1 /\ M!EnumStart(c.t, 0, -1)
  \/ c.o = "enum" /\ c.out = 0 /\ ~M!Above(0, -1) /\ UNCHANGED mv
  \/ c.o = "next" /\ c.t \in DOMAIN enums /\ (IF c.out = 0 THEN M!EnumEnd(c.t) ELSE M!EnumStep(c.t, KeyOf(c.out), c.out))
  \/ c.o = "drop" /\ M!EnumDrop(c.t)
ContextEffect(c) ==
  \/ c.o = "add" /\ c.out \in {0, 1} /\ X!Add(1, c.n, c.a, c.out = 1, FALSE)
  \/ c.o = "rmn" /\ c.out \in {0, 1} /\ X!RemoveName(1, c.n, c.out = 1)
  \/ c.o = "rma" /\ c.out \in {0, 1} /\ X!RemoveAddr(1, c.a, c.out = 1)
  \/ c.o = "ren" /\ c.out \in {0, 1} /\ X!Rename(1, c.n, c.m, c.a, c.out = 1, FALSE)
  \/ c.o = "fbn" /\ c.out = X!Lookup(cx[1], c.n) /\ UNCHANGED xv
  \/ c.o = "fba" /\ c.out = X!NameOf(1, c.a) /\ UNCHANGED xv
\* calls that change the object wait for everybody who has its lock, the others for those who have it for writing
Changes == {"halloc", "hfree", "push", "cut", "page", "pfree", "put", "rep", "rem", "add", "rmn", "rma", "ren"}
Waits(t, w) == \A u \in T \ {t} : hold[u] # "W" /\ (w => hold[u] = "")
LockEffect(t, c) ==
  \/ c.o = "lock" /\ hold[t] = "" /\ Waits(t, c.n = 1) /\ hold' = [hold EXCEPT ![t] = IF c.n = 1 THEN "W" ELSE "R"]
  \/ c.o = "unlock" /\ hold[t] # "" /\ hold' = [hold EXCEPT ![t] = ""]
KindEffect(c) ==
  \/ here = "heap" /\ HeapEffect(c) /\ UNCHANGED <<kv, pv, mv, xv>>
  \/ here = "stack" /\ StackEffect(c) /\ UNCHANGED <<hv, pv, mv, xv>>
  \/ here = "pages" /\ PagesEffect(c) /\ UNCHANGED <<hv, kv, mv, xv>>
  \/ here = "map" /\ MapEffect(c) /\ UNCHANGED <<hv, kv, pv, xv>>
  \/ here = "ctx" /\ ContextEffect(c) /\ UNCHANGED <<hv, kv, pv, mv>>
Effect(t) ==
  /\ op[t].o \notin {"none", "ret"}
  /\ op' = [op EXCEPT ![t] = [o |-> "ret"]] /\ UNCHANGED <<l, here>>
  /\ IF op[t].o \in {"lock", "unlock"} THEN LockEffect(t, op[t]) /\ UNCHANGED <<hv, kv, pv, mv, xv>>
     ELSE hold' = hold /\ (op[t].o # "drop" => Waits(t, op[t].o \in Changes)) /\ KindEffect(op[t])
TNext ==
  \/ \E t \in T : Effect(t)
  \/ Is("c") /\ op[Ev.t] = Idle /\ op' = [op EXCEPT ![Ev.t] = Ev] /\ UNCHANGED <<here, hold, hv, kv, pv, mv, xv>>
  \/ Is("r") /\ op[Ev.t].o = "ret" /\ Ev.ok = 1 /\ op' = [op EXCEPT ![Ev.t] = Idle] /\ UNCHANGED <<here, hold, hv, kv, pv, mv, xv>>
  \/ Is("reset") /\ op' = [t \in T |-> Idle] /\ here' = "none" /\ hold' = [t \in T |-> ""]
     /\ heaps' = <<>> /\ stacks' = <<>> /\ spaces' = <<>> /\ ch' = <<>> /\ maps' = <<>> /\ enums' = <<>> /\ cx' = <<>> /\ proj' = <<>> /\ cur' = <<>>
  \/ Is("mk") /\ Quiet /\ here = "none" /\ Ev.ok = 1 /\ here' = Ev.k /\ UNCHANGED <<op, hold>>
     /\ \/ Ev.k = "heap" /\ H!Create(0, Ev.cap) /\ UNCHANGED <<kv, pv, mv, xv>>
        \/ Ev.k = "stack" /\ K!NewStack(0, Ev.cap) /\ UNCHANGED <<hv, pv, mv, xv>>
        \/ Ev.k = "pages" /\ P!New(0, Ev.base, Ev.bsz, Ev.psz, Ev.fixed = 1) /\ UNCHANGED <<hv, kv, mv, xv>>
        \/ Ev.k = "map" /\ M!NewMap(0, Ev.n) /\ UNCHANGED <<hv, kv, pv, xv>>
        \/ Ev.k = "ctx" /\ X!Create(1) /\ UNCHANGED <<hv, kv, pv, mv>>
  \/ Is("dump") /\ Quiet /\ UNCHANGED <<op, hold, here, hv, kv, pv, mv, xv>>
     /\ IF here = "map" THEN \A k \in DOMAIN maps[0] : Ev.v[k + 1] = maps[0][k]
        ELSE \A n \in 1..Len(Ev.v) : Ev.v[n] = X!Lookup(cx[1], n) /\ Ev.w[n] = X!NameOf(1, n)
  \/ Is("del") /\ Quiet /\ here # "none" /\ here' = "gone" /\ UNCHANGED <<op, hold, hv, kv, pv, mv, xv>>
=============================================================================
