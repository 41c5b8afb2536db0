----------------------------- MODULE Trace_View ------------------------------
EXTENDS View, TraceBase

Init == ViewInit /\ TraceStart
Next ==
  /\ Advance
  /\ \/ Is("vertex") /\ Vertex(Ev.a, Ev.at)
     \/ Is("edge") /\ Edge(Ev.a, Ev.b, Ev.t)
     \/ Is("text") /\ Text(Ev.lines)
     \/ Is("whole") /\ Whole(Ev.items)
     \/ Is("image") /\ Picture(Ev.per, Ev.there, Ev.px)
     \/ Is("lost") /\ UNCHANGED viewVars
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED viewVars
Spec == Init /\ [][Next]_<<viewVars, th, ti>>
=============================================================================
