-------------------------------- MODULE Skew --------------------------------
(* Merging and de-skewing of scans in the front end.  Points of scans are     *)
(* <<x, y, z, intensity>> in metres; motions are <<x, y, z, q>> in            *)
(* millimetres with q quarter turns about z.                                  *)
EXTENDS Integers, Sequences

VARIABLES set,     \* the settings
          part,    \* scans waiting to be merged
          clouds,  \* merged scans: [t, pts], pts of [p, i, n]: the i-th (from 0) of n points
          used,    \* number of merged scans the registration has seen
          target,  \* <<>> or [cloud, motion]: the reference scan as de-skewed by motion
          moved    \* motion from the reference scan to the latest scan
svars == <<set, part, clouds, used, target, moved>>

Still == <<0, 0, 0, 0>>
Begin == set = <<>> /\ part = <<>> /\ clouds = <<>> /\ used = 0 /\ target = <<>> /\ moved = Still
Settings(s) == set' = s /\ UNCHANGED <<part, clouds, used, target, moved>>

(* ---- merging ---- *)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss).pts \o Concat(Tail(ss))
Sq(x) == x * x
(* the range filter has its limits at half metres: r + 1/2 squared is r*r + r + 1/4 *)
Passes(p) ==
  \/ set.lo = 0
  \/ LET d == Sq(p[1]) + Sq(p[2]) + Sq(p[3]) IN d > Sq(set.lo) + set.lo /\ d <= Sq(set.hi) + set.hi
Numbered(ps) == [k \in DOMAIN ps |-> [p |-> ps[k], i |-> k - 1, n |-> Len(ps)]]
Kept(x) == Passes(x.p)
Merge(ss) == [t |-> ss[1].t, pts |-> SelectSeq(Numbered(Concat(ss)), Kept)]

Scan(t, pts) ==
  LET all == Append(part, [t |-> t, pts |-> pts]) IN
  /\ IF Len(all) = set.merge
     THEN part' = <<>> /\ clouds' = Append(clouds, Merge(all))
     ELSE part' = all /\ UNCHANGED clouds
  /\ UNCHANGED <<set, used, target, moved>>

(* ---- motions ---- *)
Turn(q, v) ==
  CASE q % 4 = 0 -> v
    [] q % 4 = 1 -> <<-v[2], v[1], v[3]>>
    [] q % 4 = 2 -> <<-v[1], -v[2], v[3]>>
    [] OTHER -> <<v[2], -v[1], v[3]>>
Norm(q) == ((q + 1) % 4) - 1
(* the motion from a to b *)
Between(a, b) ==
  LET v == Turn(-a[4], <<b[1] - a[1], b[2] - a[2], b[3] - a[3]>>) IN <<v[1], v[2], v[3], Norm(b[4] - a[4])>>
Half(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2, (a[3] + b[3]) \div 2, a[4]>>
Abs(x) == IF x < 0 THEN -x ELSE x

(* ---- de-skewing: every point by its own fraction of the motion ---- *)
Cosines == <<10000, 9808, 9239, 8315, 7071, 5556, 3827, 1951, 0>>   \* at k / 8 of a quarter turn
(* in 1/10 mm *)
Placed(x, m) ==
  LET k == (8 * x.i) \div x.n
      c == Cosines[IF m[4] = 0 THEN 1 ELSE k + 1]
      s == IF m[4] = 0 THEN 0 ELSE m[4] * Cosines[9 - k]
      share(d) == (10 * d * x.i) \div x.n
  IN <<c * x.p[1] - s * x.p[2] + share(m[1]), s * x.p[1] + c * x.p[2] + share(m[2]), 10000 * x.p[3] + share(m[3])>>
Tolerance == 40
IsPoint(o, x, m) ==
  /\ \A d \in 1..3 : Abs(10 * o[d] - Placed(x, m)[d]) <= Tolerance
  /\ o[4] = x.p[4]
  /\ Abs(o[5] * x.n - 840 * x.i) <= x.n
IsCloud(os, c, m) ==
  /\ Len(os) = Len(c.pts)
  /\ \A k \in DOMAIN os : IsPoint(os[k], c.pts[k], m)
(* a half turn has no unique middle; 9 is not a motion about the vertical *)
Decided(m) == m[4] \in {-1, 0, 1}

(* ---- one registration ---- *)
Reference == IF target = <<>> THEN [cloud |-> clouds[1], motion |-> Still] ELSE target
Final(guess, res) == IF set.skew /\ set.average THEN Half(guess, res) ELSE res
Reached(m) ==
  \/ Sq(m[1] \div 1000) + Sq(m[2] \div 1000) + Sq(m[3] \div 1000) > Sq(set.range) + set.range
  \/ m[4] # 0

Align(src, t, tgt, tt, guess, res) ==
  LET k == IF used = 0 THEN 2 ELSE used + 1 IN
  /\ k <= Len(clouds)
  /\ t = clouds[k].t
  /\ tt = Reference.cloud.t
  /\ IsCloud(tgt, Reference.cloud, Reference.motion)
  /\ IF set.skew
     THEN guess[4] = 9 \/ (Decided(Between(moved, guess)) => IsCloud(src, clouds[k], Between(moved, guess)))
     ELSE IsCloud(src, clouds[k], Still)
  /\ used' = k
  /\ LET f == Final(guess, res)
         cloud == [cloud |-> clouds[k], motion |-> IF set.skew THEN Between(moved, f) ELSE Still]
     IN IF Reached(f) THEN target' = cloud /\ moved' = Still
                      ELSE target' = Reference /\ moved' = f
  /\ UNCHANGED <<set, part, clouds>>

(* nothing is left behind *)
Done == (Len(clouds) <= 1 \/ used = Len(clouds)) /\ UNCHANGED svars
=============================================================================
