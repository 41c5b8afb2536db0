------------------------------- MODULE Graph -------------------------------
(* The pose graph fed with mutually consistent measurements.                  *)
EXTENDS Rigid, FiniteSets

VARIABLES opt,
          poses,   \* the one assignment the measurements agree with
          edges,   \* pairs <<a, b>> of submaps numbered from 0, a before b
          fixes    \* number of submaps with a position
gvars == <<opt, poses, edges, fixes>>

Abs(x) == IF x < 0 THEN -x ELSE x
Begin == opt = <<>> /\ poses = <<>> /\ edges = {} /\ fixes = 0
Start(o) == opt = <<>> /\ opt' = o /\ UNCHANGED <<poses, edges, fixes>>

(* rows of the matrix of a motion in 1/1000 *)
Rows(p) == [i \in 1..3 |-> [j \in 1..4 |-> 1000 * (IF j = 4 THEN p[i] ELSE Rot[p[4]][i][j])]]
Close(m, p, tol) == LET w == Rows(p) IN \A i \in 1..3, j \in 1..4 : Abs(m[i][j] - w[i][j]) <= tol

(* The origin of the positions is first taken to be that of the map, which    *)
(* adds a weak contradiction if it is not.                                    *)
Slack == IF opt.gps /\ opt.coord # Ident THEN 150 ELSE 30

AddSubmap(rel, gps) ==
  /\ poses' = Append(poses, IF poses = <<>> THEN rel ELSE Compose(poses[Len(poses)], rel))
  /\ edges' = edges \cup (IF poses = <<>> THEN {} ELSE {<<Len(poses) - 1, Len(poses)>>})
  /\ fixes' = fixes + (IF gps THEN 1 ELSE 0)
  /\ UNCHANGED opt

(* a loop is closed by two or more accepted matches *)
Matched(good) ==
  /\ \A t \in good : t < Len(poses) - 1
  /\ edges' = edges \cup (IF Cardinality(good) >= 2 THEN {<<t, Len(poses) - 1>> : t \in good} ELSE {})
  /\ UNCHANGED <<opt, poses, fixes>>

Graph(ps, verts, es, connected) ==
  /\ Len(ps) = Len(poses)
  /\ \A i \in DOMAIN ps : (Close(ps[i], poses[i], IF i = 1 THEN 1 ELSE Slack) \/ (opt.drift # 0 /\ i > 1))
  /\ Len(verts) = Len(poses) /\ {verts[i] : i \in DOMAIN verts} = 0..(Len(poses) - 1)
  /\ {<<es[i].a, es[i].b>> : i \in DOMAIN es} = edges /\ Len(es) = Cardinality(edges)
  /\ \A i \in DOMAIN es : Close(es[i].t, Compose(Inverse(poses[es[i].a + 1]), poses[es[i].b + 1]),
                                    IF opt.drift = 0 \/ es[i].b = es[i].a + 1 THEN 1 ELSE 500)
  /\ \A i \in DOMAIN connected :
       LET mine == {e \in edges : e[1] = i - 1}
       IN {<<i - 1, connected[i][j]>> : j \in DOMAIN connected[i]} = mine /\ Len(connected[i]) = Cardinality(mine)

(* map origin in the frame of the positions, once it was determined *)
Coord(m) == \/ Close(m, Ident, 0)
            \/ opt.drift = 2
            \/ opt.gps /\ fixes > opt.init /\ Close(m, opt.coord, 2 * Slack)
(* contradicting data: the poses end up nearer to it than to the chain of submaps *)
Pulled(chain, data) == opt.drift # 0 /\ data < chain
Calib(m) == Close(m, opt.calib, 30)
=============================================================================
