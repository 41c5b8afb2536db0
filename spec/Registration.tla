---------------------------- MODULE Registration ----------------------------
(* Registering a view of a scene to the scene.  The points of the view are    *)
(* points of the scene that were moved, so it is known where they belong.     *)
(*   own    places of the probe points in the scene, in millimetres           *)
(*   seen   their places in the view                                          *)
(*   last   outcome of the last registration [to, score]                      *)
(*   best   score of the last registration that found the right place, or -1  *)
EXTENDS Integers, Sequences

VARIABLES kind, own, seen, last, best
regVars == <<kind, own, seen, last, best>>

Begin == kind = -1 /\ own = <<>> /\ seen = <<>> /\ last = <<>> /\ best = -1

Scene(k, o, s) == kind = -1 /\ kind' = k /\ own' = o /\ seen' = s /\ UNCHANGED <<last, best>>

Abs(x) == IF x < 0 THEN -x ELSE x
Near(p, q, tol) == \A k \in 1..3 : Abs(p[k] - q[k]) <= tol
AllNear(ps, qs, tol) == Len(ps) = Len(qs) /\ \A i \in DOMAIN ps : Near(ps[i], qs[i], tol)

(* the walls are flat, which the first and the third matcher find out exactly *)
Tolerance == IF kind = 1 THEN 250 ELSE 5

(* distances between points are kept; in units of 10 centimetres, squared *)
Dm(x) == x \div 100
Dist2(p, q) == LET d(k) == Dm(p[k] - q[k]) IN d(1) * d(1) + d(2) * d(2) + d(3) * d(3)
Rigid(ps) == \A i, j \in DOMAIN ps :
  i < j => Abs(Dist2(ps[i], ps[j]) - Dist2(seen[i], seen[j])) <= 150 + Dist2(seen[i], seen[j]) \div 8

(* a start far off may lead anywhere, even out of what can be measured *)
Lost(ps) == \E i \in DOMAIN ps : \E k \in 1..3 : Abs(ps[i][k]) > 800000000

(* how: 0 started at the right place, 1 near it, 2 as the call before, 3 far off *)
Align(how, ok, to, score) ==
  /\ kind >= 0
  /\ score >= 0 /\ score <= 1000000
  /\ IF Lost(to) THEN how \in {2, 3} /\ score < 1000 ELSE Rigid(to)
  /\ how \in {0, 1} => ok /\ AllNear(to, own, Tolerance) /\ score >= 500000
  /\ how = 2 => (Lost(to) = Lost(last.to) /\ (Lost(to) \/ AllNear(to, last.to, 2))) /\ Abs(score - last.score) <= 100
  \* a wrong place scores lower than the right one
  /\ (best >= 0 /\ \A i \in DOMAIN to : ~Near(to[i], own[i], 3000)) => score < best
  /\ last' = [to |-> to, score |-> score]
  /\ best' = IF AllNear(to, own, Tolerance) THEN score ELSE best
  /\ UNCHANGED <<kind, own, seen>>
=============================================================================
