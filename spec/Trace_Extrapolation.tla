------------------------ MODULE Trace_Extrapolation ------------------------
EXTENDS Extrapolation, TraceBase
Init == TraceStart /\ Begin(Traces[th][1].mode, Traces[th][1].window)
Next ==
  /\ Advance
  /\ \/ Is("start") /\ UNCHANGED evars
     \/ Is("pose") /\ AddPose([t |-> Ev.t, p |-> Ev.p, a |-> Ev.a])
     \/ Is("imu") /\ AddImu(Ev.t, Ev.w)
     \/ Is("rough") /\ Rough(Ev.v)
     \/ Is("predict") /\ Ev.affine /\ Ev.off <= 3 /\ TRUE = Predicted(Ev.t, Ev.p, Ev.a) /\ UNCHANGED evars
     \/ Is("last") /\ Ev.t = (IF poses = <<>> THEN 0 ELSE Newest.t) /\ UNCHANGED evars
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED evars
Spec == Init /\ [][Next]_<<evars, th, ti>>
=============================================================================
