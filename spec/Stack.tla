------------------------------- MODULE Stack -------------------------------
(* Simple stacks and simple spaces.  A stack hands out adjacent runs of      *)
(* 16-byte units from its bottom upwards until its top is set back; a space  *)
(* is one fixed range behind a handle.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES stacks,    \* id -> [cap, top, objs]; objs: sequence of <<first unit, units>> in allocation order
          spaces     \* id -> [size, free] in bytes
Units(bytes) == (bytes + 15) \div 16
StackInit == stacks = <<>> /\ spaces = <<>>
NewStack(h, cap) == stacks' = (h :> [cap |-> cap, top |-> 0, objs |-> <<>>]) @@ stacks /\ UNCHANGED spaces
DropStack(h) == h \in DOMAIN stacks /\ stacks' = [x \in DOMAIN stacks \ {h} |-> stacks[x]] /\ UNCHANGED spaces
Push(h, n, a) ==
  LET s == stacks[h] IN
  /\ a = s.top /\ s.top + n <= s.cap
  /\ stacks' = [stacks EXCEPT ![h] = [@ EXCEPT !.top = s.top + n, !.objs = Append(@, <<a, n>>)]]
  /\ UNCHANGED spaces
PushFail(h, n) == stacks[h].top + n > stacks[h].cap /\ UNCHANGED <<stacks, spaces>>
(* cutting back to a: exactly what lies above a is given back (an allocation containing a keeps its lower part) *)
Keep(objs, a) == SelectSeq(objs, LAMBDA o : o[1] + o[2] <= a)
Cut(h, a) ==
  /\ a \in 0..stacks[h].top
  /\ stacks' = [stacks EXCEPT ![h] = [@ EXCEPT !.top = a, !.objs = Keep(@, a)]]
  /\ UNCHANGED spaces
FreeUnits(h) == stacks[h].cap - stacks[h].top

NewSpace(h, size, free) == spaces' = (h :> [size |-> size, free |-> free]) @@ spaces /\ UNCHANGED stacks
DropSpace(h) == h \in DOMAIN spaces /\ spaces' = [x \in DOMAIN spaces \ {h} |-> spaces[x]] /\ UNCHANGED stacks
---------------------------------------------------------------------------
Nested == \A h \in DOMAIN stacks : LET o == stacks[h].objs IN
            /\ \A i \in 1..(Len(o) - 1) : o[i][1] + o[i][2] <= o[i + 1][1]
            /\ o # <<>> => o[Len(o)][1] + o[Len(o)][2] <= stacks[h].top
            /\ stacks[h].top \in 0..stacks[h].cap
=============================================================================
