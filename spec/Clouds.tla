------------------------------- MODULE Clouds -------------------------------
(* Point clouds and what may be done to them.  A cloud is [t |-> <<s, ns>>,   *)
(* p |-> sequence of <<x, y, z, intensity, fraction * 64>>].  A rigid motion  *)
(* is the upper 3x4 part of its matrix, over the integers.                    *)
EXTENDS Integers, Sequences

None == 900000001          \* a coordinate that is not a number
Regs == 1..3
VARIABLES cl, want
cloudVars == <<cl, want>>

EmptyCloud == [t |-> <<0, 0>>, p |-> <<>>]
CloudInit == cl = [k \in Regs |-> EmptyCloud] /\ want = <<>>

Valid(q) == q[1] # None /\ q[2] # None /\ q[3] # None
Coord(m, q, k) == m[k][1] * q[1] + m[k][2] * q[2] + m[k][3] * q[3] + m[k][4]
(* an invalid point stays a point; its coordinates mean nothing any more *)
MoveOne(m, q) ==
  IF Valid(q) THEN <<Coord(m, q, 1), Coord(m, q, 2), Coord(m, q, 3), q[4], q[5]>>
  ELSE <<None, None, None, q[4], q[5]>>
MoveAll(m, s) == [i \in DOMAIN s |-> MoveOne(m, s[i])]
SamePoint(a, b) == /\ a[4] = b[4] /\ a[5] = b[5]
                   /\ IF Valid(a) THEN a = b ELSE ~Valid(b)
Same(s, u) == Len(s) = Len(u) /\ \A i \in DOMAIN s : SamePoint(s[i], u[i])

Set(k, t, p) == cl' = [cl EXCEPT ![k] = [t |-> t, p |-> p]]
AppendTo(k, j) == cl' = [cl EXCEPT ![k].p = @ \o cl[j].p]
Copy(k, j) == cl' = [cl EXCEPT ![k] = cl[j]]
MoveHere(k, m) == cl' = [cl EXCEPT ![k].p = MoveAll(m, @)]
MoveInto(k, j, m) == cl' = [cl EXCEPT ![k] = [t |-> cl[j].t, p |-> MoveAll(m, cl[j].p)]]

(* the exchange format: microseconds, no fraction, maybe no intensity *)
Exchanged(p, int) == [i \in DOMAIN p |-> <<p[i][1], p[i][2], p[i][3], IF int THEN p[i][4] ELSE 0, 0>>]
Micros(t) == t[1] * 1000000 + t[2] \div 1000
FromMicros(us) == <<us \div 1000000, (us % 1000000) * 1000>>
Export(k, int, us, p) == us = Micros(cl[k].t) /\ Same(Exchanged(cl[k].p, int), p)
Import(k, us, p) == cl' = [cl EXCEPT ![k] = [t |-> FromMicros(us), p |-> p]]

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
(* matrix form, in 1/1000: p0, n0 before and p1, n1 after the motion m *)
MatrixOf(p, q) ==
  Len(p) = Len(q) /\ \A i \in DOMAIN p : \A k \in 1..3 : Near(1000 * p[i][k], q[i][k], 2)
MovedMatrix(m, p0, p1, shift) ==
  /\ Len(p0) = Len(p1)
  /\ \A i \in DOMAIN p0 : Valid(p0[i]) =>
       \A k \in 1..3 : Near(m[k][1] * p0[i][1] + m[k][2] * p0[i][2] + m[k][3] * p0[i][3]
                            + (IF shift THEN 1000 * m[k][4] ELSE 0), p1[i][k], 4)

(* ---- stored clouds: values as bit patterns ---- *)
Store(c, ends) == /\ Len(c) = Len(ends) /\ \A i \in DOMAIN ends : ends[i] > (IF i = 1 THEN 0 ELSE ends[i-1])
                  /\ want' = [c |-> c, ends |-> ends]
(* what is left after cutting the file at a byte is read whole, the rest refused *)
Whole(cut) == {i \in DOMAIN want.c : want.ends[i] <= cut}
LoadOk(cut, got) ==
  LET w == Whole(cut) IN Len(got) = (CHOOSE n \in 0..Len(want.c) : w = 1..n) /\ \A i \in DOMAIN got : got[i] = want.c[i]

(* ---- de-skewing: n points, point i at fraction (i-1)/n of the motion q = <<x, y, z, quarter turns>> ---- *)
Cosines == <<10000, 9239, 7071, 3827, 0>>   \* of 0, 22.5, .. 90 degrees
Cos(k) == Cosines[k + 1]
Sin(k) == Cosines[5 - k]
(* x and y in 1/1000 of point p after num/den of the motion; den divides 4 *)
SkewX(q, p, num, den) == (Cos((4 * num) \div den) * p[1] - q[4] * Sin((4 * num) \div den) * p[2]) \div 10 + (1000 * q[1] * num) \div den
SkewY(q, p, num, den) == (Cos((4 * num) \div den) * p[2] + q[4] * Sin((4 * num) \div den) * p[1]) \div 10 + (1000 * q[2] * num) \div den
SkewZ(q, p, num, den) == 1000 * p[3] + (1000 * q[3] * num) \div den
Unskewed(q, p, r) ==
  Len(p) = Len(r) /\ \A i \in DOMAIN p :
    /\ Near(r[i][1], SkewX(q, p[i], i - 1, Len(p)), 15)
    /\ Near(r[i][2], SkewY(q, p[i], i - 1, Len(p)), 15)
    /\ Near(r[i][3], SkewZ(q, p[i], i - 1, Len(p)), 15)
=============================================================================
