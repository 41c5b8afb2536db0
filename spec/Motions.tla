------------------------------ MODULE Motions ------------------------------
(* Rigid motions in fixed point: rotation matrices in 1/10000, lengths in     *)
(* 1/1000.                                                                    *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
One == 10000
NearR(r, s, tol) == \A i \in 1..3 : \A j \in 1..3 : Abs(r[i][j] - s[i][j]) <= tol
NearT(t, u, tol) == \A i \in 1..3 : Abs(t[i] - u[i]) <= tol
Mul(r, s) == [i \in 1..3 |-> [j \in 1..3 |->
               (r[i][1] * s[1][j] + r[i][2] * s[2][j] + r[i][3] * s[3][j]) \div One]]
Transp(r) == [i \in 1..3 |-> [j \in 1..3 |-> r[j][i]]]
(* grows as the angle of the rotation shrinks *)
Trace(r) == r[1][1] + r[2][2] + r[3][3]
Apart(r, s) == 3 * One - Trace(Mul(Transp(r), s))

C(q) == CASE q % 4 = 0 -> One [] q % 4 = 2 -> -One [] OTHER -> 0
S(q) == CASE q % 4 = 1 -> One [] q % 4 = 3 -> -One [] OTHER -> 0
TurnX(q) == << <<One, 0, 0>>, <<0, C(q), -S(q)>>, <<0, S(q), C(q)>> >>
TurnY(q) == << <<C(q), 0, S(q)>>, <<0, One, 0>>, <<-S(q), 0, C(q)>> >>
TurnZ(q) == << <<C(q), -S(q), 0>>, <<S(q), C(q), 0>>, <<0, 0, One>> >>
(* angles about x, y, z applied in this order *)
Quarter(e, r) == NearR(r, Mul(TurnZ(e[3]), Mul(TurnY(e[2]), TurnX(e[1]))), 3)

(* steps k = 0..8 from (r, t) to (s, u) *)
Interpolated(r, t, s, u, rs, ts) ==
  /\ Len(rs) = 9 /\ Len(ts) = 9
  /\ NearR(rs[1], r, 3) /\ NearR(rs[9], s, 3)
  /\ \A k \in 1..9 : \A i \in 1..3 : Abs(8 * ts[k][i] - (8 * t[i] + (k - 1) * (u[i] - t[i]))) <= 16
  \* always away from the start and towards the end, evenly
  /\ \A k \in 1..8 : Apart(r, rs[k]) <= Apart(r, rs[k+1]) + 12 /\ Apart(s, rs[k+1]) <= Apart(s, rs[k]) + 12
  /\ \A k \in 1..8 : Abs(Apart(rs[k], rs[k+1]) - Apart(rs[1], rs[2])) <= 12
  /\ \A k \in 1..9 : NearR(Mul(Transp(rs[k]), rs[k]), TurnX(0), 6)

(* the middle of two near rotations is as near to one as to the other, and nearer than they are *)
Middle(r, s, m) ==
  /\ NearR(Mul(Transp(m), m), TurnX(0), 8)
  /\ Abs(Apart(r, m) - Apart(s, m)) <= 16
  /\ 3 * Apart(r, m) <= Apart(r, s) + 40

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
(* the plane through p along u and v (whole metres); c and n in 1/1000 *)
PlaneFit(p, u, v, c, n) ==
  LET m == Cross(u, v) IN
  /\ Abs(Dot(n, n) - 1000000) <= 6000
  /\ Abs(Dot(n, u)) <= 20 /\ Abs(Dot(n, v)) <= 20
  /\ Abs(Dot(m, <<c[1] - 1000 * p[1], c[2] - 1000 * p[2], c[3] - 1000 * p[3]>>)) <= 2 * (Abs(m[1]) + Abs(m[2]) + Abs(m[3]))
Angle(a, n) == /\ n \in -18001..18001
               /\ LET d == (a - n) % 36000 IN d <= 2 \/ d >= 35998
RECURSIVE Pow(_, _)
Pow(b, x) == IF x = 0 THEN 1 ELSE b * Pow(b, x - 1)
=============================================================================
