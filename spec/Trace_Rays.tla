----------------------------- MODULE Trace_Rays -----------------------------
EXTENDS Rays, TraceBase
Init == TraceStart
Next ==
  /\ Advance
  /\ \/ Is("ray") /\ Ray(Ev.a, Ev.b, Ev.step, Ev.u, Ev.v)
     \/ Is("exit") /\ Ev.st = "ok"
Spec == Init /\ [][Next]_<<th, ti>>
=============================================================================
