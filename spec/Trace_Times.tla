---------------------------- MODULE Trace_Times ----------------------------
EXTENDS Times, TraceBase
Init == TraceStart
Next ==
  /\ Advance
  /\ \/ Is("cmp") /\ Compare(Ev.a, Ev.b, Ev.eq, Ev.ne, Ev.lt, Ev.le, Ev.gt, Ev.ge)
     \/ Is("sub") /\ Ev.r = Minus(Ev.a, Ev.b)
     \/ Is("add") /\ Ev.r = Plus(Ev.a, Ev.b) /\ Ev.i = Ev.r
     \/ Is("div") /\ Ev.r = Over(Ev.a, Ev.d)
     \/ Is("pcl") /\ Ev.r = [Ev.a EXCEPT ![5] = 0] /\ Ev.rest = Ev.a[3] * 1000 + Ev.a[4]
     \/ Is("nano") /\ Ev.r = Ev.a
     \* seconds as a floating point number: as exact as that number is
     \/ Is("sec") /\ (IF Ev.a[1] < 64 THEN WithinNano(Ev.a, Ev.r, 2) ELSE WithinMicro(Ev.a, Ev.r, 2))
     \/ Is("ends") /\ Ev.max /\ Ev.zero /\ Ev.neg /\ Ev.iszero = (Ev.a = Zero5)
     \/ Is("find") /\ Bracket(Ev.v, Ev.x, Ev.i, Ev.j)
     \/ Is("exit") /\ Ev.st = "ok"
Spec == Init /\ [][Next]_<<th, ti>>
=============================================================================
