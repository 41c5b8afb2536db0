----------------------------- MODULE Trace_Skew -----------------------------
EXTENDS Skew, TraceBase
VARIABLES rows    \* the points given to the matrix form
Init == TraceStart /\ Begin /\ rows = <<>>
(* the matrix form does not carry intensity and fraction *)
Matrix(m, ps) == [m |-> m, pts |-> [k \in DOMAIN ps |-> [p |-> ps[k], i |-> k - 1, n |-> Len(ps)]]]
Next ==
  /\ Advance
  /\ \/ Is("settings") /\ Settings(Ev) /\ UNCHANGED rows
     \/ Is("scan") /\ Scan(Ev.t, Ev.pts) /\ UNCHANGED rows
     \/ Is("align") /\ Align(Ev.src, Ev.t, Ev.tgt, Ev.tt, Ev.guess, Ev.res) /\ UNCHANGED rows
     \/ Is("done") /\ Done /\ UNCHANGED rows
     \/ Is("skew") /\ rows' = <<Matrix(Ev.m, Ev.p)>> /\ UNCHANGED svars
     \/ /\ Is("unskewed") /\ Len(Ev.p) = Len(rows[1].pts)
        /\ \A k \in DOMAIN Ev.p : \A d \in 1..3 :
             Abs(10 * Ev.p[k][d] - Placed(rows[1].pts[k], rows[1].m)[d]) <= Tolerance
        /\ UNCHANGED <<rows, svars>>
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED <<rows, svars>>
Spec == Init /\ [][Next]_<<svars, rows, th, ti>>
=============================================================================
