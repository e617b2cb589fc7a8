-------------------------- MODULE EntryCodecTrace --------------------------
EXTENDS EntryCodec, TraceBase
vars == <<lo, hi, mem, wr, rd, l>>
Same == UNCHANGED <<lo, hi, mem, wr, rd>>
(* the handle after the call: where its next item may start, and how much is left *)
W == Ev.nx = wr' /\ Ev.rem = hi' - wr'
R == Ev.nx = rd' /\ Ev.rem = hi' - rd'
TInit == lo = 0 /\ hi = 0 /\ mem = <<>> /\ wr = 0 /\ rd = 0 /\ l = 1
TNext ==
  \/ Is("reset") /\ Same
  \/ Is("entry") /\ lo' = Ev.lo /\ hi' = Ev.hi /\ mem' = <<>> /\ wr' = Ev.lo /\ rd' = Ev.lo
  \/ Is("add") /\ Ev.rc = 0 /\ Put(Ev.b, Ev.al) /\ W
  \/ Is("full") /\ Ev.rc # 0 /\ Refused(Ev.sz, Ev.al) /\ W
  \/ Is("take") /\ Ev.at = AlignUp(wr, Ev.al) /\ Take(Ev.sz, Ev.al) /\ W
  \/ Is("get") /\ Get(Ev.b, Ev.al) /\ R
  \/ Is("short") /\ Ev.zero = 1 /\ Short(Ev.sz, Ev.al) /\ R
  \/ Is("skip") /\ Ev.at = AlignUp(rd, Ev.al) /\ Skip(Ev.sz, Ev.al) /\ R
  \/ Is("gets") /\ Ev.at = rd /\ GetString(Ev.n) /\ R
  \/ Is("getsnone") /\ NoString /\ R
  \/ Is("ptr") /\ Ev.w = wr /\ Ev.r = rd /\ Same
  \* a structure written through the pointer it was given
  \/ Is("poke") /\ mem' = [x \in Ev.at..(Ev.at + Len(Ev.b) - 1) |-> Ev.b[x - Ev.at + 1]] @@ mem /\ UNCHANGED <<lo, hi, wr, rd>>
  \/ Is("dump") /\ Ev.out = 1 /\ Len(Ev.b) = hi - lo /\ (\A x \in DOMAIN mem : Ev.b[x - lo + 1] = mem[x]) /\ Same
  \/ Is("align") /\ Ev.r = AlignUp(Ev.p + Ev.inc, Ev.al) /\ Same
=============================================================================
