----------------------------- MODULE MC_LfHeap -----------------------------
EXTENDS LfHeap, TLC, Json
CONSTANTS NW, Own, Lens, Aligns, MaxMade, FirstFit
VARIABLES made, hist
vars == <<hvars, made, hist>>
Init == nw = NW /\ hdr = Own /\ live = [i \in {} |-> 0] /\ made = 0 /\ hist = <<>>
        /\ free = [w \in 0..(NW - 1) |-> {p \in 0..(W - 1) : w * W + p >= Own}]
Do(x) == hist' = Append(hist, x)
At(n, a) == {u \in 0..(NW * W - 1) : (u % W) % a = 0 /\ Open(u, n)}
Least(S) == CHOOSE u \in S : \A v \in S : u <= v
MAlloc(n, a) == /\ made < MaxMade /\ Do(<<"A", n, a>>)
                /\ IF At(n, a) = {} THEN UNCHANGED <<hvars, made>>
                   ELSE /\ \E u \in At(n, a) : (FirstFit => u = Least(At(n, a))) /\ Alloc(made + 1, u, n)
                        /\ made' = made + 1
MFree(i) == Free(i) /\ UNCHANGED made /\ Do(<<"F", i>>)
MAgain(i) == i <= made /\ i \notin DOMAIN live /\ UNCHANGED <<hvars, made>> /\ Do(<<"X", i>>)
Next == (\E n \in Lens, a \in Aligns : MAlloc(n, a)) \/ (\E i \in 1..MaxMade : MFree(i))
NextX == Next \/ (\E i \in 1..MaxMade : MAgain(i))
RoomIsFit == \A n \in Lens, a \in Aligns : Room(n, a) <=> At(n, a) # {}
EmitAll == PrintT(<<"SCRIPT", ToJson(hist')>>)
View == <<hvars, made>>
=============================================================================
