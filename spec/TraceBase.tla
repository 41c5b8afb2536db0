------------------------------ MODULE TraceBase ------------------------------
(* Validation of many recorded histories in one TLC run.  Every history is an *)
(* initial state (th = its number, ti = number of the next event); register th *)
(* holds the largest number of events of history th that the specification     *)
(* could follow.  Needs -workers 1.                                            *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

VARIABLES th, ti

Traces == ndJsonDeserialize(IOEnv.TRACES)
NTraces == Len(Traces)
ASSUME \A k \in 1..NTraces : TLCSet(k, 0)

TraceStart == th \in 1..NTraces /\ ti = 1
More == ti <= Len(Traces[th])
Ev == Traces[th][ti]
Is(name) == More /\ Ev.e = name
Advance == ti' = ti + 1 /\ th' = th
Stay == UNCHANGED <<th, ti>>

(* CONSTRAINT: records progress, stops a history once it was followed to its end *)
Progress ==
  /\ TLCGet(th) < Len(Traces[th])
  /\ IF ti - 1 > TLCGet(th) THEN TLCSet(th, ti - 1) ELSE TRUE

(* POSTCONDITION *)
Rejected == {k \in 1..NTraces : TLCGet(k) < Len(Traces[k])}
Report ==
  /\ \A k \in Rejected : PrintT(<<"REJ", k, TLCGet(k)>>)
  /\ PrintT(<<"SUMMARY", NTraces, NTraces>>)
=============================================================================
