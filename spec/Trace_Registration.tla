------------------------- MODULE Trace_Registration -------------------------
EXTENDS Registration, TraceBase

Init == Begin /\ TraceStart
Next ==
  /\ Advance
  /\ \/ Is("scene") /\ Scene(Ev.kind, Ev.own, Ev.seen)
     \/ Is("align") /\ Align(Ev.how, Ev.ok, Ev.to, Ev.score)
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED regVars
Spec == Init /\ [][Next]_<<regVars, th, ti>>
=============================================================================
