------------------------------ MODULE Packages ------------------------------
(* A map package: the map cut into overlapping squares.  Lengths in 1/8.      *)
(* A submap is [x, y, pts] with its points <<id, x, y, z>> in the map.         *)
EXTENDS Integers, Sequences, FiniteSets

Low(S) == CHOOSE x \in S : \A y \in S : x <= y
High(S) == CHOOSE x \in S : \A y \in S : x >= y
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Steps(lo, hi, half) == LET n == (hi - lo) \div half IN IF n = 0 THEN 1 ELSE n

(* the pieces along one axis: centre and covered interval *)
Axis(lo, hi, half) ==
  [i \in 1..Steps(lo, hi, half) |->
     [c |-> lo + i * half, a |-> Clamp(lo + (i - 1) * half, lo, hi), b |-> Clamp(lo + (i + 1) * half, lo, hi)]]

RECURSIVE PointsOf(_, _)
PointsOf(maps, i) == IF i > Len(maps) THEN {} ELSE {maps[i].pts[j] : j \in DOMAIN maps[i].pts} \cup PointsOf(maps, i + 1)

(* points of a piece, relative to its centre: those inside its square, of the *)
(* submaps not further than the border from it                                *)
Piece(px, py, maps, border) ==
  LET Near(m) == /\ px.a - border <= m.x /\ m.x <= px.b + border
                 /\ py.a - border <= m.y /\ m.y <= py.b + border
      near == {i \in DOMAIN maps : Near(maps[i])}
      all == UNION {{maps[i].pts[j] : j \in DOMAIN maps[i].pts} : i \in near}
  IN {<<p[1], p[2] - px.c, p[3] - py.c, p[4]>> :
        p \in {q \in all : px.a <= q[2] /\ q[2] <= px.b /\ py.a <= q[3] /\ q[3] <= py.b}}

Package(maps, half, border) ==     \* the pieces that have points
  LET xs == {maps[i].x : i \in DOMAIN maps}
      ys == {maps[i].y : i \in DOMAIN maps}
      ax == Axis(Low(xs) - border, High(xs) + border, half)
      ay == Axis(Low(ys) - border, High(ys) + border, half)
  IN {p \in {[x |-> ax[i].c, y |-> ay[j].c, pts |-> Piece(ax[i], ay[j], maps, border)] :
              i \in DOMAIN ax, j \in DOMAIN ay} : p.pts # {}}

(* a rigid motion given by its upper rows, translation in whole metres *)
Move(t, p) == <<p[1]>> \o [k \in 1..3 |-> t[k][1] * p[2] + t[k][2] * p[3] + t[k][3] * p[4] + 8 * t[k][4]]
SubmapOf(e) == [x |-> 8 * e.pose[1][4], y |-> 8 * e.pose[2][4], pts |-> [j \in DOMAIN e.pts |-> Move(e.pose, e.pts[j])]]
=============================================================================
