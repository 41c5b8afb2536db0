---------------------------- MODULE Trace_Graph ----------------------------
EXTENDS Graph, TraceBase
Init == TraceStart /\ Begin
SetOf(s) == {s[i] : i \in DOMAIN s}
Next ==
  /\ Advance
  /\ \/ Is("start") /\ Start(Ev)
     \/ Is("add") /\ AddSubmap(Ev.rel, Ev.gps)
     \/ Is("matches") /\ SetOf(Ev.bad) \cap SetOf(Ev.good) = {} /\ Matched(SetOf(Ev.good))
     \/ Is("graph") /\ Ev.same /\ ~Ev.foreign /\ TRUE = Graph(Ev.poses, Ev.verts, Ev.edges, Ev.connected) /\ UNCHANGED gvars
     \/ Is("coord") /\ TRUE = Coord(Ev.t) /\ UNCHANGED gvars
     \/ Is("pull") /\ TRUE = Pulled(Ev.chain, Ev.data) /\ UNCHANGED gvars
     \/ Is("calib") /\ TRUE = Calib(Ev.t) /\ UNCHANGED gvars
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED gvars
Spec == Init /\ [][Next]_<<gvars, th, ti>>
=============================================================================
