------------------------------- MODULE Holder -------------------------------
(* One cloud in the hands of the mapper: moved, given normals, stored, dropped *)
(* from memory and used again.  Where it currently lives must not be visible.  *)
(* A store that could not be written whole, and a stored file that was cut, are *)
(* never taken for the cloud: the operation is refused or the program stops.    *)
EXTENDS Clouds

VARIABLES tm, pts,    \* time stamp and points <<x, y, z, intensity, fraction>>
          mat, nrm,   \* matrix form and normals in 1/1000; nrm = <<>> without normals
          fresh,      \* the normals belong to the points as they are now, unmoved
          room,       \* space left while storing, -1 for enough, -2 when not storing
          bad         \* the stored file was cut
holderVars == <<cl, want, tm, pts, mat, nrm, fresh, room, bad>>

HolderInit ==
  /\ CloudInit /\ tm = <<0, 0>> /\ pts = <<>> /\ mat = <<>> /\ nrm = <<>>
  /\ fresh = TRUE /\ room = -2 /\ bad = FALSE

Scaled(p) == [i \in DOMAIN p |-> <<1000 * p[i][1], 1000 * p[i][2], 1000 * p[i][3]>>]
Give(t, p) ==
  /\ tm' = t /\ pts' = p /\ mat' = Scaled(p) /\ nrm' = <<>> /\ fresh' = TRUE
  /\ UNCHANGED <<cl, want, room, bad>>

Sq3(v) == (v[1] * v[1] + v[2] * v[2] + v[3] * v[3]) \div 1000
UnitLong(n) == \A i \in DOMAIN n : Near(Sq3(n[i]), 1000, 6)
Lo(k) == CHOOSE x \in {pts[i][k] : i \in DOMAIN pts} : \A i \in DOMAIN pts : x <= pts[i][k]
Hi(k) == CHOOSE x \in {pts[i][k] : i \in DOMAIN pts} : \A i \in DOMAIN pts : x >= pts[i][k]
Within(q) == \A i \in DOMAIN q : \A k \in 1..3 : q[i][k] >= 1000 * Lo(k) - 2 /\ q[i][k] <= 1000 * Hi(k) + 2
Sensible(q, n) == Len(q) = Len(n) /\ Len(q) > 0 /\ UnitLong(n) /\ Within(q)

Normals(q, n) ==
  /\ TRUE = Sensible(q, n)
  /\ mat' = q /\ nrm' = n
  /\ UNCHANGED <<cl, want, tm, pts, fresh, room, bad>>

Turned(m, v, s) ==
  <<m[1][1] * v[1] + m[1][2] * v[2] + m[1][3] * v[3] + s * m[1][4],
    m[2][1] * v[1] + m[2][2] * v[2] + m[2][3] * v[3] + s * m[2][4],
    m[3][1] * v[1] + m[3][2] * v[2] + m[3][3] * v[3] + s * m[3][4]>>
Move(m) ==
  /\ pts' = MoveAll(m, pts)
  /\ mat' = [i \in DOMAIN mat |-> Turned(m, mat[i], 1000)]
  /\ nrm' = [i \in DOMAIN nrm |-> Turned(m, nrm[i], 0)]
  /\ fresh' = (nrm = <<>>)
  /\ UNCHANGED <<cl, want, tm, room, bad>>

Saving(r) == room' = r /\ UNCHANGED <<cl, want, tm, pts, mat, nrm, fresh, bad>>
(* what was stored with success must serve later uses, however little space there was *)
Saved(ok) ==
  /\ room # -2
  /\ TRUE = ((room = -1) => ok)
  /\ bad' = FALSE
  /\ room' = -2
  /\ UNCHANGED <<cl, want, tm, pts, mat, nrm, fresh>>

Drop == UNCHANGED holderVars
Spoil == bad' = TRUE /\ UNCHANGED <<cl, want, tm, pts, mat, nrm, fresh, room>>

NearAll(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : \A k \in 1..3 : Near(a[i][k], b[i][k], 3)
Serves(t, p, q, n) ==
  /\ t = tm
  /\ p = pts
  /\ IF nrm = <<>> THEN n = <<>> /\ NearAll(q, mat)
     ELSE (IF fresh THEN NearAll(q, mat) /\ NearAll(n, nrm) ELSE Sensible(q, n))
Use(ok, t, p, q, n) ==
  /\ TRUE = (IF bad THEN ~ok ELSE ok /\ Serves(t, p, q, n))
  /\ UNCHANGED holderVars

(* who got the cloud before it was dropped keeps it *)
Held(t, p, q, n) == TRUE = Serves(t, p, q, n) /\ UNCHANGED holderVars

Time(t) == t = tm /\ UNCHANGED holderVars

(* the program may stop only on a fault *)
Stopped(st) == st = "ok" \/ (st = "sig6" /\ (room >= 0 \/ bad))
=============================================================================
