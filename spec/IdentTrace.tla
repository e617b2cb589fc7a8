----------------------------- MODULE IdentTrace -----------------------------
(* Histories of threads and forked processes that ask who they are and what  *)
(* time it is, and stamp entries of logs and queues.                         *)
EXTENDS Ident, TraceBase
VARIABLES off, goff, held
vars == <<ivars, off, goff, held, l>>
TInit == Nobody /\ off = <<0, 0>> /\ goff = <<0, 0>> /\ held = {} /\ l = 1
Same == UNCHANGED <<off, goff, held>>
TNext ==
  \/ Is("reset") /\ live' = [h \in {} |-> 0] /\ last' = [h \in {} |-> 0] /\ held' = {} /\ UNCHANGED <<off, goff>>
  (* how far the library's scales are from the clocks: no further than it took to read them *)
  \/ /\ Is("scales") /\ Ev.freq = G /\ Ev.fast = G /\ off' = Ev.off /\ goff' = Ev.goff
     /\ Within(Ev.off, Minus(<<0, 0>>, Ev.win), Ev.win) /\ UNCHANGED <<ivars, held>>
     (* of the other clock, which may be set and slewed meanwhile, a tenth of a second more *)
     /\ LET slack == Plus(Ev.win, <<0, 100000000>>) IN Within(Minus(Ev.goff, Ev.real), Minus(<<0, 0>>, slack), slack)
  \/ Is("start") /\ Born(Ev.h, Ev.pid, Ev.tid) /\ Same
  \/ Is("end") /\ Gone(Ev.h) /\ Same
  \/ Is("ask") /\ Told(Ev.h, Ev.f, Ev.v) /\ UNCHANGED ivars /\ Same
  \/ Is("cmd") /\ Ev.h \in DOMAIN live /\ Ev.ok = 1 /\ UNCHANGED ivars /\ Same
  \/ Is("timer") /\ Timed(Ev.h, Ev.b, Ev.v, Ev.a) /\ Same
  \/ Is("stamp") /\ Stamped(Ev.h, Ev.pid, Ev.tid) /\ Timed(Ev.h, Ev.b, Ev.v, Ev.a) /\ Same
  \/ Is("gettime") /\ Within(Ev.v, Plus(Ev.b, off), Plus(Ev.a, off)) /\ Time(Ev.v) /\ UNCHANGED ivars /\ Same
  \/ /\ Is("gtod") /\ Ev.v[2] \in 0..999999 /\ UNCHANGED ivars /\ Same
     /\ Within(Ev.v, Micro(Plus(Ev.b, goff)), Micro(Plus(Plus(Ev.a, goff), <<0, 1000>>)))
  \/ Is("conv") /\ Conv(Ev.x, Ev.f, Ev.r) /\ UNCHANGED ivars /\ Same
  \/ Is("convmicro") /\ ConvMicro(Ev.x, Ev.f, Ev.r) /\ UNCHANGED ivars /\ Same
  (* a lock belongs to the thread that took it, not to a process made by it *)
  \/ Is("got") /\ held = {} /\ held' = {Ev.h} /\ UNCHANGED <<ivars, off, goff>>
  \/ Is("rel") /\ held = {Ev.h} /\ held' = {} /\ UNCHANGED <<ivars, off, goff>>
=============================================================================
