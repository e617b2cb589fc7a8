--------------------------- MODULE MC_EntryCodec ---------------------------
(* A writer puts items into an entry that starts at Lo (4 or 16) and ends at *)
(* Hi; a reader that asks for the same items in the same order is given them.*)
EXTENDS EntryCodec, Json
CONSTANTS Lo, Hi,
  Ahead     \* how many items the writer may be ahead of the reader
VARIABLES items, nread, hist
vars == <<lo, hi, mem, wr, rd, items, nread, hist>>
(* size and alignment *)
Kinds == ("c" :> <<1, 1>>) @@ ("h" :> <<2, 2>>) @@ ("i" :> <<4, 4>>) @@ ("l" :> <<8, 8>>) @@ ("s0" :> <<1, 1>>) @@ ("s3" :> <<4, 1>>) @@ ("t6" :> <<6, 2>>) @@ ("T8" :> <<8, 16>>)
Init == lo = Lo /\ hi = Hi /\ mem = <<>> /\ wr = Lo /\ rd = Lo /\ items = <<>> /\ nread = 0 /\ hist = <<>>
Val(sz, n) == [k \in 1..sz |-> n]
Add(c) == LET k == Kinds[c] IN
  /\ Len(items) - nread < Ahead /\ hist' = Append(hist, "A" \o c) /\ UNCHANGED nread
  /\ IF Fits(wr, k[1], k[2]) THEN Put(Val(k[1], Len(items) + 1), k[2]) /\ items' = Append(items, c)
     ELSE Refused(k[1], k[2]) /\ UNCHANGED items
Read(c) == LET k == Kinds[c] IN
  /\ nread < Len(items) /\ c = items[nread + 1] /\ hist' = Append(hist, "G" \o c) /\ nread' = nread + 1 /\ UNCHANGED items
  /\ Get(At(AlignUp(rd, k[2]), k[1]), k[2])
Over(c) == LET k == Kinds[c] IN
  /\ nread = Len(items) /\ hist' = Append(hist, "G" \o c) /\ UNCHANGED <<nread, items>> /\ Short(k[1], k[2])
Next == \E c \in DOMAIN Kinds : Add(c) \/ Read(c) \/ Over(c)
(* what the reader is given is what was written *)
RoundTrip == [][rd' # rd => At(rd' - Kinds[items[nread']][1], Kinds[items[nread']][1]) = Val(Kinds[items[nread']][1], nread')]_vars
CanRead == nread < Len(items) => LET k == Kinds[items[nread + 1]] IN Fits(rd, k[1], k[2]) /\ Known(AlignUp(rd, k[2]), k[1])
View == <<wr, rd, SubSeq(items, nread + 1, Len(items))>>
EmitAll == PrintT(<<"SCRIPT", ToJson(hist')>>)
=============================================================================
