--------------------------- MODULE Trace_Motions ---------------------------
EXTENDS Motions, TraceBase
Init == TraceStart
RTol == IF Ev.single THEN 6 ELSE 3
Next ==
  /\ Advance
  /\ \/ /\ Is("conv") /\ NearR(Ev.eu, Ev.r, RTol) /\ NearR(Ev.q, Ev.r, RTol) /\ NearR(Ev.e2, Ev.r, 2 * RTol)
        /\ NearR(Ev.vr, Ev.r, RTol) /\ NearT(Ev.vt, Ev.t, 1) /\ NearT(Ev.six, Ev.t, 1) /\ NearT(Ev.tt, Ev.t, 1) /\ Ev.last
     \/ Is("prod") /\ NearR(Ev.p, Mul(Ev.r, Ev.s), 8)
     \/ Is("same") /\ NearR(Ev.ar, Ev.r, 6) /\ NearT(Ev.at, Ev.t, 2)
     \/ /\ Is("mean") /\ NearR(Ev.ar, Ev.r, 6)
        /\ \A i \in 1..3 : Abs(2 * Ev.at[i] - Ev.t[i] - Ev.u[i]) <= 4
     \/ Is("middle") /\ Middle(Ev.r, Ev.s, Ev.m)
     \/ Is("quarter") /\ Quarter(Ev.eu, Ev.r)
     \/ Is("interp") /\ Interpolated(Ev.r, Ev.t, Ev.s, Ev.u, Ev.rs, Ev.ts)
     \/ Is("angle") /\ Angle(Ev.a, Ev.n)
     \/ Is("clamp") /\ Ev.r = (IF Ev.v < Ev.lo THEN Ev.lo ELSE IF Ev.v > Ev.hi THEN Ev.hi ELSE Ev.v)
     \/ Is("power") /\ Ev.r = Pow(Ev.b, Ev.x) /\ Ev.s = Ev.b * Ev.b
     \/ Is("plane") /\ PlaneFit(Ev.p, Ev.u, Ev.v, Ev.c, Ev.n)
     \/ Is("line") /\ Abs(Ev.d - 1000 * Ev.off) <= 1
     \/ Is("exit") /\ Ev.st = "ok"
Spec == Init /\ [][Next]_<<th, ti>>
=============================================================================
