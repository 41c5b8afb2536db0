------------------------------ MODULE Filters ------------------------------
(* The pre-processing filters.  Lengths in 1/8; a point is <<id, x, y, z, f>>. *)
(* A setting is a record with field k (the filter) and the parameters given;   *)
(* the others have their defaults.                                             *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Par(c, name, default) == IF name \in DOMAIN c THEN c[name] ELSE default
Huge == 1000000
Sq(x) == x * x

RECURSIVE Pick(_, _, _, _)
Pick(s, keep, i, r) == IF i > Len(s) THEN r ELSE Pick(s, keep, i + 1, IF i \in keep THEN Append(r, s[i]) ELSE r)
Sub(s, keep) == Pick(s, keep, 1, <<>>)
RECURSIVE Asc(_, _, _)
Asc(keep, i, n) == IF i > n THEN <<>> ELSE (IF i \in keep THEN <<i - 1>> ELSE <<>>) \o Asc(keep, i + 1, n)

(* ---- criteria ---- *)
InRange(c, p) ==
  LET d == Sq(p[2]) + Sq(p[3]) + Sq(p[4])
  IN d >= Sq(Par(c, "min_range", 0)) /\ ("max_range" \in DOMAIN c => d <= Sq(c["max_range"]))
OnAxis(c, p) ==
  LET v == p[2 + Par(c, "axis_index", 2)] IN v >= Par(c, "min", -Huge) /\ v <= Par(c, "max", Huge)
InBox(c, p) ==
  /\ p[2] >= Par(c, "min_x", -Huge) /\ p[2] <= Par(c, "max_x", Huge)
  /\ p[3] >= Par(c, "min_y", -Huge) /\ p[3] <= Par(c, "max_y", Huge)
  /\ p[4] >= Par(c, "min_z", -Huge) /\ p[4] <= Par(c, "max_z", Huge)

(* towards zero *)
Trunc(x, d) == IF x < 0 THEN -((-x) \div d) ELSE x \div d
Voxel(c, p) == LET l == c["leaf_size"] IN <<Trunc(p[2], l), Trunc(p[3], l), Trunc(p[4], l)>>
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* kept: the points of voxels with enough points that do not look like ground *)
AboveGround(c, s, i) ==
  LET v == Voxel(c, s[i])
      m == {j \in DOMAIN s : Voxel(c, s[j]) = v}
      zs == {s[j][4] : j \in m}
  IN /\ Cardinality(m) >= c["min_point_num_in_voxel"]
     /\ ~(v[3] <= 0 /\ Max(zs) - Min(zs) <= c["height_threshold"])

Keeps(c, s) ==     \* indices kept by a filter with a criterion
  CASE c.k = "Range" -> {i \in DOMAIN s : InRange(c, s[i])}
    [] c.k = "AxisRange" -> {i \in DOMAIN s : OnAxis(c, s[i])}
    [] c.k = "BoundingBoxRemoval" -> {i \in DOMAIN s : ~InBox(c, s[i])}
    [] c.k = "GroundRemoval" -> {i \in DOMAIN s : AboveGround(c, s, i)}
    [] OTHER -> DOMAIN s
(* sampling: all at rate one, none at rate zero, else about that share *)
SampleOk(c, n, m) ==
  LET rate == Par(c, "sampling_rate", 8)
      d == 8 * m - rate * n     \* deviation in eighths; six standard deviations allowed
  IN CASE rate = 8 -> m = n [] rate = 0 -> m = 0 [] OTHER -> Sq(d) <= 36 * n * rate * (8 - rate) + 64

Partition(inl, outl, keep, n) == inl = Asc(keep, 1, n) /\ outl = Asc(1..n \ keep, 1, n)
IndexSet(inl) == {inl[i] + 1 : i \in DOMAIN inl}

(* ---- voxel average: one point per occupied voxel, in 1/8000 ---- *)
Near(x, d) == IF x >= 0 THEN (2 * x + d) \div (2 * d) ELSE -((2 * (-x) + d) \div (2 * d))
Vox(c, p) == LET l == c["voxel_size"] IN <<Near(p[2], l), Near(p[3], l), Near(p[4], l)>>
RECURSIVE Total(_, _, _)
Total(s, m, k) == IF m = {} THEN 0 ELSE LET i == CHOOSE x \in m : TRUE IN s[i][k] + Total(s, m \ {i}, k)
Averages(c, s, out) ==
  LET vs == {Vox(c, s[i]) : i \in DOMAIN s} IN
  /\ Len(out) = Cardinality(vs)
  /\ \A v \in vs :
       LET m == {i \in DOMAIN s : Vox(c, s[i]) = v}
           n == Cardinality(m)
       IN \E j \in DOMAIN out : \A k \in 1..4 : Abs(1000 * Total(s, m, k) - n * out[j][k]) <= 4 * n

(* ---- a chain ---- *)
RECURSIVE Through(_, _)
Through(cs, s) ==
  IF cs = <<>> THEN s
  ELSE LET c == Head(cs)
           keep == IF c.k = "RandomSampler" THEN (IF Par(c, "sampling_rate", 8) = 0 THEN {} ELSE DOMAIN s)
                   ELSE Keeps(c, s)
       IN Through(Tail(cs), Sub(s, keep))
=============================================================================
