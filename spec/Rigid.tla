------------------------------- MODULE Rigid -------------------------------
(* Rigid motions of the integer grid: <<x, y, z, q>> is a translation and one *)
(* of the 24 rotations of the grid; q = 0..3 are the quarter turns about z.   *)
(* A point is <<id, x, y, z>>.                                                *)
EXTENDS Integers, Sequences

Cos(k) == CASE k = 0 -> 1 [] k = 2 -> -1 [] OTHER -> 0
Sin(k) == CASE k = 1 -> 1 [] k = 3 -> -1 [] OTHER -> 0
AboutX(k) == << <<1, 0, 0>>, <<0, Cos(k), -Sin(k)>>, <<0, Sin(k), Cos(k)>> >>
AboutY(k) == << <<Cos(k), 0, Sin(k)>>, <<0, 1, 0>>, <<-Sin(k), 0, Cos(k)>> >>
AboutZ(k) == << <<Cos(k), -Sin(k), 0>>, <<Sin(k), Cos(k), 0>>, <<0, 0, 1>> >>
Times3(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]]
Transposed(a) == [i \in 1..3 |-> [j \in 1..3 |-> a[j][i]]]

(* the z axis is brought to one of six directions, after a quarter turn about it *)
Tilt(f) == IF f < 4 THEN AboutX(f) ELSE AboutY(IF f = 4 THEN 1 ELSE 3)
Rot == [q \in 0..23 |-> Times3(Tilt(q \div 4), AboutZ(q % 4))]
NumberOf(m) == CHOOSE q \in 0..23 : Rot[q] = m
Product == [a \in 0..23 |-> [b \in 0..23 |-> NumberOf(Times3(Rot[a], Rot[b]))]]
Opposite == [a \in 0..23 |-> NumberOf(Transposed(Rot[a]))]

Ident == <<0, 0, 0, 0>>
Row(q, i, x, y, z) == Rot[q][i][1] * x + Rot[q][i][2] * y + Rot[q][i][3] * z
Compose(a, b) ==
  <<a[1] + Row(a[4], 1, b[1], b[2], b[3]), a[2] + Row(a[4], 2, b[1], b[2], b[3]),
    a[3] + Row(a[4], 3, b[1], b[2], b[3]), Product[a[4]][b[4]]>>
Inverse(a) ==
  LET q == Opposite[a[4]]
  IN <<-Row(q, 1, a[1], a[2], a[3]), -Row(q, 2, a[1], a[2], a[3]), -Row(q, 3, a[1], a[2], a[3]), q>>
MovePoint(a, p) ==
  <<p[1], a[1] + Row(a[4], 1, p[2], p[3], p[4]), a[2] + Row(a[4], 2, p[2], p[3], p[4]),
    a[3] + Row(a[4], 3, p[2], p[3], p[4])>>
Move(a, pts) == [i \in DOMAIN pts |-> MovePoint(a, pts[i])]
Norm2(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
(* angle of the rotation in degrees *)
Turn(a) ==
  LET r == Rot[a[4]]
      trace == r[1][1] + r[2][2] + r[3][3]
  IN CASE trace = 3 -> 0 [] trace = 1 -> 90 [] trace = 0 -> 120 [] OTHER -> 180
=============================================================================
