---------------------------- MODULE Trace_Places ----------------------------
EXTENDS Places, TraceBase

Init == Begin /\ TraceStart
Next ==
  /\ Advance
  /\ \/ Is("describe") /\ Describe(Ev.c, Ev.ok, Ev.set)
     \/ Is("match") /\ Match(Ev.a, Ev.b, Ev.score)
     \/ Is("compare") /\ Compare(Ev.a, Ev.b, Ev.score)
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED placeVars
Spec == Init /\ [][Next]_<<placeVars, th, ti>>
=============================================================================
