------------------------------ MODULE MC_Stack ------------------------------
EXTENDS Stack, Json
CONSTANTS Cap, MaxReq, MaxObjs
VARIABLE hist
Init == StackInit /\ hist = <<>>
First == stacks = <<>> /\ NewStack(0, Cap) /\ hist' = hist
Op == /\ stacks # <<>>
      /\ \/ \E n \in 0..MaxReq : /\ (\/ Push(0, n, stacks[0].top) \/ PushFail(0, n))
                                 /\ hist' = Append(hist, <<"P", n>>)
         \/ \E a \in 0..Cap : Cut(0, a) /\ hist' = Append(hist, <<"C", a>>)
Next == First \/ Op
Small == stacks = <<>> \/ Len(stacks[0].objs) <= MaxObjs
View == <<stacks, spaces>>
EmitAll == PrintT(<<"SCRIPT", ToJson(hist')>>)
(* what was allocated before a cut back and lies below it survives it *)
CutKeepsBelow == [][\A h \in DOMAIN stacks : \A i \in 1..Len(stacks[h].objs) :
     LET o == stacks[h].objs[i] IN
     o[1] + o[2] <= stacks'[h].top => \E j \in 1..Len(stacks'[h].objs) : stacks'[h].objs[j] = o]_stacks
=============================================================================
