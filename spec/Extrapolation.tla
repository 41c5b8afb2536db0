--------------------------- MODULE Extrapolation ---------------------------
(* Prediction of poses from recorded poses and inertial samples.  All turns   *)
(* are about one axis: a pose is [t, p, a] with the position in mm and the     *)
(* angle in 1/100 degree, time in ticks.                                       *)
EXTENDS Integers, Sequences

VARIABLES mode, window, poses, imus, vel
evars == <<mode, window, poses, imus, vel>>

Full == 36000
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
(* into -180..180 degrees *)
Norm(a) == LET m == a % Full IN IF m > Full \div 2 THEN m - Full ELSE m
Newest == poses[Len(poses)]

Still == [d |-> <<0, 0, 0>>, a |-> 0, k |-> 1]   \* displacement d and turn a in k ticks

Begin(m, w) == mode = m /\ window = w /\ poses = <<>> /\ imus = <<>> /\ vel = Still

(* velocity over the window: from the last pose at least the window older *)
Velocity(ps) ==
  LET n == Len(ps)
      old == {i \in 1..n : ps[i].t <= ps[n].t - window}
      i == CHOOSE j \in old : \A k \in old : k <= j
  IN IF n < 2 \/ old = {} THEN vel
     ELSE [d |-> [c \in 1..3 |-> ps[n].p[c] - ps[i].p[c]],
           a |-> Norm(ps[n].a - ps[i].a), k |-> ps[n].t - ps[i].t]

AddPose(q) ==
  /\ (IF poses = <<>> THEN TRUE ELSE q.t >= Newest.t)
  /\ poses' = Append(poses, q)
  /\ vel' = Velocity(poses')
  /\ UNCHANGED <<mode, window, imus>>

AddImu(t, w) ==
  /\ imus' = Append(imus, [t |-> t, w |-> w])
  /\ UNCHANGED <<mode, window, poses, vel>>

Rough(v) ==
  /\ vel' = [d |-> [c \in 1..3 |-> v[c] * vel.k], a |-> vel.a, k |-> vel.k]
  /\ UNCHANGED <<mode, window, poses, imus>>

(* the angular velocity of a sample holds until the next sample *)
RECURSIVE Turned(_, _, _)
Turned(i, from, to) ==
  IF i > Len(imus) THEN 0
  ELSE LET a == Max2(from, imus[i].t)
           b == IF i = Len(imus) THEN to ELSE Min2(to, imus[i + 1].t)
       IN (IF b > a THEN imus[i].w * (b - a) ELSE 0) + Turned(i + 1, from, to)

(* a prediction p, a for time t, rounded to whole units *)
Position(t, p) ==
  \A c \in 1..3 : 10 * Abs(p[c] * vel.k - (Newest.p[c] * vel.k + vel.d[c] * (t - Newest.t))) <= 8 * vel.k
Near(x, k) == x % (Full * k) <= 3 * k \/ x % (Full * k) >= (Full - 3) * k
Angle(t, a) ==
  IF mode = "imu" THEN Near(a - Newest.a - Turned(1, Newest.t, t), 1)
  ELSE Near((a - Newest.a) * vel.k - vel.a * (t - Newest.t), vel.k)
Predicted(t, p, a) == poses # <<>> /\ t >= Newest.t /\ Position(t, p) /\ Angle(t, a)
=============================================================================
