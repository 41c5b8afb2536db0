--------------------------- MODULE Trace_Records ---------------------------
EXTENDS Records, TraceBase

Init == RecInit /\ TraceStart
Val == IF Ev.got THEN Ev.v ELSE <<0, 0, 0, 0>>
Next ==
  /\ Advance
  /\ \/ Is("gps") /\ Fix(Ev.t, Ev.s, Ev.p)
     \/ Is("odom") /\ Pose(Ev.t, Ev.p)
     \/ Is("glook") /\ LookFix(Ev.t, Ev.thr, Ev.trim, Ev.got, Val)
     \/ Is("olook") /\ LookPose(Ev.t, Ev.thr, Ev.trim, Ev.got, Val, Ev.got => Ev.up)
     \/ Is("gtrim") /\ Discard(Ev.t)
     \/ Is("file") /\ Ev.k = "gps" /\ FixTrack(Ev.rows) /\ Ev.ok = (gps # <<>>) /\ UNCHANGED recVars
     \/ Is("file") /\ Ev.k = "odom" /\ PoseTrack(Ev.rows) /\ Ev.ok = (odo # <<>>) /\ UNCHANGED recVars
     \/ Is("ref") /\ Reference(Ev.got, Val) /\ UNCHANGED recVars
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED recVars
Spec == Init /\ [][Next]_<<recVars, th, ti>>
=============================================================================
