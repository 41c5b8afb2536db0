------------------------------- MODULE Boxes -------------------------------
(* Axis-aligned boxes and the tree of cubes, lengths in 1/8 of a metre.       *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
InCube(c, size, p) == \A k \in 1..3 : 2 * Abs(p[k] - c[k]) <= size
Strictly(c, size, p) == \A k \in 1..3 : 2 * Abs(p[k] - c[k]) < size
InBox(lo, hi, p) == \A k \in 1..3 : lo[k] <= p[k] /\ p[k] <= hi[k]
Octants(c, size) == {<<c[1] + s * (size \div 4), c[2] + t * (size \div 4), c[3] + u * (size \div 4)>> :
                     s \in {-1, 1}, t \in {-1, 1}, u \in {-1, 1}}

VARIABLE cube     \* [c, size, subs]: the cube the following probes are made in
Cube(c, at, size, subs) ==
  /\ c = at /\ Len(subs) = 8 /\ {subs[i] : i \in 1..8} = Octants(c, size)
  /\ cube' = [c |-> c, size |-> size, subs |-> subs]
Probe(p, in, k, ins) ==
  /\ in = InCube(cube.c, cube.size, p)
  /\ IF in THEN k \in 0..7 /\ ins[k + 1] = 1 ELSE k = -1
  /\ \A i \in 1..8 : (ins[i] = 1) = InCube(cube.subs[i], cube.size \div 2, p)

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
XYZ(s) == [i \in DOMAIN s |-> <<s[i][1], s[i][2], s[i][3]>>]
(* centre, along one axis, of the cell of edge w that strictly contains x *)
CellMid(lo, w, x) == lo + ((x - lo) \div w) * w + w \div 2
CellOf(c, size, d, p) ==
  LET w == size \div (2 ^ d) IN [k \in 1..3 |-> CellMid(c[k] - size \div 2, w, p[k])]
(* c, size, depth, cap: configuration; in: points given; out: <<x, y, z, depth>> as stored *)
Tree(c, size, depth, cap, in, out, max) ==
  LET pts == XYZ(out) IN
  /\ \A i \in DOMAIN out : out[i][4] \in 0..depth
  /\ \A i \in DOMAIN in : InCube(c, size, in[i]) => Count(pts, in[i]) = Count(in, in[i])
  /\ \A i \in DOMAIN out : Count(pts, pts[i]) <= Count(in, pts[i])
  \* no leaf above the deepest level holds more than its capacity
  /\ \A i \in DOMAIN out :
       LET d == out[i][4]
           w == size \div (2 ^ d)
           m == CellOf(c, size, d, pts[i])
       IN d < depth => Cardinality({j \in DOMAIN out : out[j][4] = d /\ Strictly(m, w, pts[j])}) <= cap
  /\ max \in 0..depth /\ \A i \in DOMAIN out : out[i][4] <= max
=============================================================================
