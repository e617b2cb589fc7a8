----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification: the recorded events are read    *)
(* from the file named by the environment variable TRACE, and l is the index *)
(* of the next event to explain.  A trace is accepted if some behaviour of   *)
(* the specification explains every event.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == TraceLog[l]
More == l <= Len(TraceLog)
Is(e) == More /\ Ev.e = e /\ l' = l + 1
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == /\ PrintT(<<"MAXL", TLCGet(1), Len(TraceLog)>>)
            /\ TLCGet(1) = Len(TraceLog) + 1
=============================================================================
