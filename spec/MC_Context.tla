----------------------------- MODULE MC_Context -----------------------------
(* One context used through the name tree and the address index the code     *)
(* keeps, step by step, with either of them or the name space refusing at    *)
(* any moment; the pair always stays one correspondence (PairOK), and each   *)
(* operation is one step of the specification (Refines).                     *)
EXTENDS Context, Json
CONSTANTS Names, Addrs, CanRefuse, MaxHist
VARIABLES nt, ai, held, pc, arg, hist     \* name tree, address index, names stored in the context, step, operands
avars == <<nt, ai, held, pc, arg>>
Init == /\ cx = (1 :> <<>>) /\ proj = <<>> /\ cur = <<>>
        /\ nt = <<>> /\ ai = <<>> /\ held = {} /\ pc = "idle" /\ arg = <<>> /\ hist = <<>>
H(o) == hist' = IF MaxHist > 0 THEN Append(hist, o) ELSE hist
Step(to) == pc' = to /\ UNCHANGED <<proj, cur, hist>>
Begin(to, a, h) == pc = "idle" /\ pc' = to /\ arg' = a /\ H(h) /\ UNCHANGED <<cx, proj, cur, nt, ai, held>>
Refuse == CanRefuse
(* add: store the name, put it in the name tree, put the address in the index, undo when one refuses *)
AddB == \E n \in Names, a \in Addrs : Begin("a1", <<n, a>>, <<"A", n, a>>)
AddDone(ok) == Add(1, arg[1], arg[2], ok, Refuse)
A1 == /\ pc = "a1" /\ UNCHANGED <<arg, nt, ai, hist>>
      /\ \/ held' = held \cup {<<arg[1], arg[2]>>} /\ pc' = "a2" /\ UNCHANGED cvars
         \/ Refuse /\ UNCHANGED held /\ pc' = "idle" /\ AddDone(FALSE)
A2 == /\ pc = "a2" /\ UNCHANGED <<arg, ai, hist>>
      /\ IF arg[1] \notin DOMAIN nt
         THEN \/ nt' = (arg[1] :> arg[2]) @@ nt /\ pc' = "a3" /\ UNCHANGED <<held, cx, proj, cur>>
              \/ Refuse /\ held' = held \ {<<arg[1], arg[2]>>} /\ pc' = "idle" /\ UNCHANGED nt /\ AddDone(FALSE)
         ELSE held' = (IF nt[arg[1]] = arg[2] THEN held ELSE held \ {<<arg[1], arg[2]>>}) /\ pc' = "idle" /\ UNCHANGED nt /\ AddDone(FALSE)
A3 == /\ pc = "a3" /\ UNCHANGED <<arg, hist>>
      /\ \/ arg[2] \notin DOMAIN ai /\ ai' = (arg[2] :> arg[1]) @@ ai /\ pc' = "idle" /\ UNCHANGED <<held, nt>> /\ AddDone(TRUE)
         \/ (arg[2] \in DOMAIN ai \/ Refuse) /\ nt' = Less(nt, arg[1]) /\ held' = held \ {<<arg[1], arg[2]>>}
            /\ pc' = "idle" /\ UNCHANGED ai /\ AddDone(FALSE)
(* remove *)
RemB == \/ \E n \in Names : Begin("r1", <<n, 0>>, <<"R", n>>)
        \/ \E a \in Addrs : Begin("r2", <<0, a>>, <<"X", a>>)
R1 == /\ pc = "r1" /\ UNCHANGED <<arg, hist>>
      /\ IF arg[1] \in DOMAIN nt
         THEN LET a == nt[arg[1]] IN nt' = Less(nt, arg[1]) /\ ai' = Less(ai, a) /\ held' = held \ {<<arg[1], a>>} /\ RemoveName(1, arg[1], TRUE)
         ELSE UNCHANGED <<nt, ai, held>> /\ RemoveName(1, arg[1], FALSE)
      /\ pc' = "idle"
R2 == /\ pc = "r2" /\ UNCHANGED <<arg, hist>>
      /\ IF arg[2] \in DOMAIN ai
         THEN LET n == ai[arg[2]] IN nt' = Less(nt, n) /\ ai' = Less(ai, arg[2]) /\ held' = held \ {<<n, arg[2]>>} /\ RemoveAddr(1, arg[2], TRUE)
         ELSE UNCHANGED <<nt, ai, held>> /\ RemoveAddr(1, arg[2], FALSE)
      /\ pc' = "idle"
(* rename: new name into the space and the name tree, the index repointed, the old name out *)
RenB == \E n, m \in Names, a \in Addrs : Begin("n1", <<n, a, m>>, <<"M", n, m, a>>)
RenDone(ok) == Rename(1, arg[1], arg[3], arg[2], ok, Refuse)
N1 == /\ pc = "n1" /\ UNCHANGED <<arg, hist, ai>>
      /\ IF arg[1] \in DOMAIN nt /\ nt[arg[1]] = arg[2] /\ arg[3] \notin DOMAIN nt
         THEN \/ held' = held \cup {<<arg[3], arg[2]>>} /\ nt' = (arg[3] :> arg[2]) @@ nt /\ pc' = "n2" /\ UNCHANGED cvars
              \/ Refuse /\ UNCHANGED <<held, nt>> /\ pc' = "idle" /\ RenDone(FALSE)
         ELSE UNCHANGED <<held, nt>> /\ pc' = "idle" /\ RenDone(FALSE)
N2 == /\ pc = "n2" /\ UNCHANGED <<arg, hist>>
      /\ ai' = [ai EXCEPT ![arg[2]] = arg[3]] /\ nt' = Less(nt, arg[1]) /\ held' = held \ {<<arg[1], arg[2]>>}
      /\ pc' = "idle" /\ RenDone(TRUE)
Next == AddB \/ A1 \/ A2 \/ A3 \/ RemB \/ R1 \/ R2 \/ RenB \/ N1 \/ N2
View == <<cx, nt, ai, held, pc, arg>>
PairOK == pc = "idle" => /\ nt = cx[1]
                         /\ \A a \in DOMAIN ai : ai[a] \in DOMAIN nt /\ nt[ai[a]] = a
                         /\ \A n \in DOMAIN nt : nt[n] \in DOMAIN ai /\ ai[nt[n]] = n
                         /\ held = {<<n, nt[n]>> : n \in DOMAIN nt}
(* every time an operation ends it has been one step of the specification: the step formulas above require it, so a
   step the specification does not admit shows as a state in which the operation cannot finish *)
NoStuck == pc # "idle" => ENABLED (A1 \/ A2 \/ A3 \/ R1 \/ R2 \/ N1 \/ N2)
EmitAll == pc' = "idle" => PrintT(<<"SCRIPT", ToJson(hist')>>)
=============================================================================
