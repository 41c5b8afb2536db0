----------------------------- MODULE Trace_Tools -----------------------------
EXTENDS Tools, TraceBase

Init == Begin /\ TraceStart
Next ==
  /\ Advance
  /\ \/ Is("cloud") /\ SaveCloud(Ev.name, Ev.pts)
     \/ Is("broken") /\ SaveOther(Ev.name)
     \/ Is("join") /\ Ev.kept /\ Join(Ev.good, Ev.pieces, Ev.st, Ev.made, Ev.read, Ev.pts)
     \/ Is("sample") /\ Ev.kept /\ Sample(Ev.name, Ev.ratio, Ev.st, Ev.made, Ev.read, Ev.pts)
     \/ Is("path") /\ Ev.kept /\ Path(Ev.name, Ev.st, Ev.made, Ev.pts)
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED toolVars
Spec == Init /\ [][Next]_<<toolVars, th, ti>>
=============================================================================
