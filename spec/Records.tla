------------------------------ MODULE Records ------------------------------
(* The stores of position fixes and odometry poses.  Times in milliseconds,   *)
(* positions in metres, answers in millimetres and 1/1000 quarter turns.      *)
(*   ref   position of the first valid fix, <<>> before it                    *)
(*   gps   records since then <<t, valid, <<x, y, z>>>>, relative to ref      *)
(*   org   first odometry pose, <<>> before it; odo records <<t, pose>>       *)
(*   glow, olow  lookups before this time may have lost their records         *)
EXTENDS Rigid, FiniteSets

VARIABLES ref, gps, org, odo, glow, olow
recVars == <<ref, gps, org, odo, glow, olow>>

RecInit == ref = <<>> /\ gps = <<>> /\ org = <<>> /\ odo = <<>> /\ glow = 0 /\ olow = 0

Fixed == 0
MaxFixGap == 200
MaxPoseGap == 1000

Fix(t, status, p) ==
  \* nothing before the first valid one, nor what is not newer
  /\ IF (ref = <<>> /\ status # Fixed) \/ (gps # <<>> /\ t <= gps[Len(gps)][1])
     THEN UNCHANGED <<ref, gps>>
     ELSE /\ ref' = IF ref = <<>> THEN p ELSE ref
          /\ gps' = Append(gps, <<t, status, <<p[1] - ref'[1], p[2] - ref'[2], p[3] - ref'[3]>> >>)
  /\ UNCHANGED <<org, odo, glow, olow>>

Pose(t, p) ==
  /\ odo # <<>> => t > odo[Len(odo)][1]
  /\ org' = IF org = <<>> THEN p ELSE org
  /\ odo' = Append(odo, <<t, Compose(Inverse(org'), p)>>)
  /\ UNCHANGED <<ref, gps, glow, olow>>

Abs(x) == IF x < 0 THEN -x ELSE x
(* records that enclose t (of at least two) *)
Encloses(s, i, t) == i \in 1..Len(s)-1 /\ s[i][1] <= t /\ t <= s[i+1][1]
Outside(s, t) == t < s[1][1] \/ t > s[Len(s)][1]
(* v (in 1/1000) is the value at t on the line from a at s to b at e *)
OnLine(v, a, b, s, e, t) == Abs(1000 * (a * (e - s) + (b - a) * (t - s)) - v * (e - s)) <= 20 * (e - s)

FixAnswer(t, thr, got, v) ==
  CASE Len(gps) = 0 -> ~got
    [] Len(gps) = 1 ->
         IF Abs(t - gps[1][1]) <= thr /\ gps[1][2] = Fixed
         THEN got /\ \A k \in 1..3 : Abs(v[k] - 1000 * gps[1][3][k]) <= 20
         ELSE ~got
    [] Len(gps) > 1 /\ Outside(gps, t) -> ~got
    [] OTHER ->
         \* on a record that ends one bracket and starts another, either may be used
         \E i \in 1..Len(gps)-1 :
           /\ Encloses(gps, i, t)
           /\ IF gps[i][2] = Fixed /\ gps[i+1][2] = Fixed /\ gps[i+1][1] - gps[i][1] <= MaxFixGap
              THEN got /\ \A k \in 1..3 : OnLine(v[k], gps[i][3][k], gps[i+1][3][k], gps[i][1], gps[i+1][1], t)
              ELSE ~got

LookFix(t, thr, trim, got, v) ==
  /\ (t < glow /\ ~got) \/ FixAnswer(t, thr, got, v)
  /\ glow' = IF trim /\ Len(gps) > 1 /\ ~Outside(gps, t) /\ t > glow THEN t ELSE glow
  /\ UNCHANGED <<ref, gps, org, odo, olow>>

(* interpolated turn: 0 for equal headings, shorter way otherwise, any for opposite ones *)
TurnOk(v, a, b, s, e, t) ==
  LET d == (b - a + 4) % 4
      w == a * 1000 * (e - s) + (CASE d = 0 -> 0 [] d = 1 -> 1000 [] d = 3 -> -1000 [] OTHER -> 0) * (t - s)
  IN d # 2 => LET m == (v * (e - s) - w) % (4000 * (e - s))
              IN m <= 3 * (e - s) \/ m >= 4000 * (e - s) - 3 * (e - s)

PoseAnswer(t, thr, got, v, up) ==
  CASE Len(odo) = 0 -> ~got
    [] Len(odo) = 1 ->
         IF Abs(t - odo[1][1]) <= thr
         THEN got /\ \A k \in 1..4 : Abs(v[k] - 1000 * odo[1][2][k]) <= 20
         ELSE ~got
    [] Len(odo) > 1 /\ Outside(odo, t) -> ~got
    [] OTHER ->
         \E i \in 1..Len(odo)-1 :
           /\ Encloses(odo, i, t)
           /\ IF odo[i+1][1] - odo[i][1] <= MaxPoseGap
              THEN /\ got /\ up
                   /\ \A k \in 1..3 : OnLine(v[k], odo[i][2][k], odo[i+1][2][k], odo[i][1], odo[i+1][1], t)
                   /\ TurnOk(v[4], odo[i][2][4], odo[i+1][2][4], odo[i][1], odo[i+1][1], t)
              ELSE ~got

LookPose(t, thr, trim, got, v, up) ==
  /\ (t < olow /\ ~got) \/ PoseAnswer(t, thr, got, v, up)
  /\ olow' = IF trim /\ Len(odo) > 1 /\ ~Outside(odo, t) /\ t > olow THEN t ELSE olow
  /\ UNCHANGED <<ref, gps, org, odo, glow>>

(* explicit discard: removes records before t only, and never the two newest *)
Discard(t) ==
  /\ glow' = IF Len(gps) < 2 THEN glow
             ELSE LET kept == {i \in 1..Len(gps) : gps[i][1] >= t} \cup {Len(gps) - 1}
                      first == gps[CHOOSE i \in kept : \A j \in kept : i <= j][1]
                  IN IF first > glow THEN first ELSE glow
  /\ UNCHANGED <<ref, gps, org, odo, olow>>

(* the recorded tracks, whatever was discarded *)
FixTrack(rows) ==
  /\ Len(rows) = Len(gps)
  /\ \A i \in 1..Len(gps) : /\ \A k \in 1..3 : Abs(rows[i][k] - 1000 * gps[i][3][k]) <= 20
                            /\ rows[i][4] = gps[i][2]
PoseTrack(rows) ==
  /\ Len(rows) = Len(odo)
  /\ \A i \in 1..Len(odo) : \A k \in 1..3 : Abs(rows[i][k] - 1000 * odo[i][2][k]) <= 20
Reference(got, v) == IF ref = <<>> THEN ~got ELSE got /\ \A k \in 1..3 : Abs(v[k] - 1000 * ref[k]) <= 20
=============================================================================
