---------------------------- MODULE MC_SortedMap ----------------------------
EXTENDS SortedMap, Json
CONSTANTS N, Vals
VARIABLES hist, seen, present0   \* seen: keys the enumeration returned; present0: keys present all the time since it started
Init == MapInit /\ hist = <<>> /\ seen = <<>> /\ present0 = {}
Keep == present0' = {k \in present0 : maps'[0][k] # 0}
Next ==
  \/ maps = <<>> /\ NewMap(0, N) /\ UNCHANGED <<hist, seen, present0>>
  \/ /\ maps # <<>>
     /\ \/ \E k \in 0..(N - 1) :
             \/ \E v \in Vals : Put(0, k, v) /\ hist' = Append(hist, <<"P", k>>)
             \/ PutRefused(0, k) /\ hist' = Append(hist, <<"P", k>>)
             \/ \E v \in Vals : v # maps[0][k] /\ Has(0, k) /\ Replace(0, k, v, maps[0][k]) /\ hist' = Append(hist, <<"R", k>>)
             \/ Has(0, k) /\ Remove(0, k, maps[0][k]) /\ hist' = Append(hist, <<"D", k>>)
             \/ Absent(0, k) /\ hist' = Append(hist, <<"D", k>>)
        /\ UNCHANGED seen /\ Keep
  \/ /\ maps # <<>> /\ enums = <<>>
     /\ \E c \in -1..(N - 2) : /\ EnumStart(0, 0, c) /\ hist' = Append(hist, <<"E", c>>)
                               /\ seen' = <<>> /\ present0' = {k \in Present(0) : k > c}
  \/ /\ enums # <<>>
     /\ \/ \E k \in 0..(N - 1) : EnumStep(0, k, maps[0][k]) /\ hist' = Append(hist, <<"N">>) /\ seen' = Append(seen, k) /\ UNCHANGED present0
        \/ EnumEnd(0) /\ hist' = Append(hist, <<"N">>) /\ UNCHANGED <<seen, present0>>
        \/ EnumDrop(0) /\ hist' = Append(hist, <<"X">>) /\ seen' = <<>> /\ present0' = {}
View == <<maps, enums, seen, present0>>
EmitAll == PrintT(<<"SCRIPT", ToJson(hist')>>)
Ascending == \A i \in 1..(Len(seen) - 1) : seen[i] < seen[i + 1]
(* whatever stayed in the map while the enumeration passed over it was returned *)
NothingMissed == enums # <<>> => \A k \in present0 : k <= enums[0].cur => \E i \in 1..Len(seen) : seen[i] = k
MinMax == maps # <<>> => \A k \in 0..(N - 1) : /\ IsMin(0, k) <=> (k \in Present(0) /\ \A x \in Present(0) : x >= k)
                                               /\ IsMax(0, k) <=> (k \in Present(0) /\ \A x \in Present(0) : x <= k)
=============================================================================
