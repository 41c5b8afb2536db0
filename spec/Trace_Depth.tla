----------------------------- MODULE Trace_Depth -----------------------------
EXTENDS Depth, TraceBase

Init == DepthInit /\ TraceStart
Next ==
  /\ Advance
  /\ \/ Is("image") /\ Image(Ev.rows, Ev.cols, Ev.pts)
     \/ Is("clusters") /\ Clusters(Ev.found)
     \/ Is("picture") /\ Picture(Ev.most, Ev.colour, Ev.px)
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED depthVars
Spec == Init /\ [][Next]_<<depthVars, th, ti>>
=============================================================================
