---------------------------- MODULE Trace_Planes -----------------------------
EXTENDS Planes, TraceBase

Init == PlanesInit /\ TraceStart
Next ==
  /\ Advance
  /\ \/ Is("cloud") /\ Cloud(Ev.least, Ev.pts)
     \/ Is("flat") /\ Detected(Ev.found)
     \/ Is("sample") /\ Sampled(Ev.part, Ev.kept)
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED planeVars
Spec == Init /\ [][Next]_<<planeVars, th, ti>>
=============================================================================
