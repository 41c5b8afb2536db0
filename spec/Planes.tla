------------------------------- MODULE Planes --------------------------------
(* Low voxels with enough points and little height are flat.  Sampling keeps   *)
(* all flat points and of the others the share asked for.                      *)
(* Lengths in 1/64 m, voxels of one metre.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES pts, least
planeVars == <<pts, least>>

PlanesInit == pts = <<>> /\ least = 1
Cloud(n, s) == pts' = s /\ least' = n

Voxel(p) == <<p[1] \div 64, p[2] \div 64, p[3] \div 64>>
Low(v) == v[3] <= 0
Most(S) == CHOOSE m \in S : \A k \in S : m >= k
Least(S) == CHOOSE m \in S : \A k \in S : m <= k
Members(v) == {i \in DOMAIN pts : Voxel(pts[i]) = v}
Flat(m, height) ==
  LET zs == {pts[i][3] : i \in m}
  IN Cardinality(m) >= least /\ Most(zs) - Least(zs) <= height
FlatPoints(height) ==
  LET low == {v \in {Voxel(pts[i]) : i \in DOMAIN pts} : Low(v)}
  IN UNION {m \in {TLCEval(Members(v)) : v \in low} : Flat(m, height)}

Distinct(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Detected(found) ==
  /\ TRUE = (Distinct(found) /\ {found[i] : i \in DOMAIN found} = FlatPoints(12))
  /\ UNCHANGED planeVars

(* n others seen, k of them kept: at any point the share asked for is kept, and not one more than needed *)
RECURSIVE Fair(_, _, _, _, _, _)
Fair(i, n, k, part, flat, ks) ==
  /\ (k + 1) * 8 > n * part /\ (k - 1) * 8 < (n + 1) * part
  /\ IF i > Len(pts) THEN TRUE
     ELSE IF i \in flat THEN Fair(i + 1, n, k, part, flat, ks)
     ELSE Fair(i + 1, n + 1, IF i \in ks THEN k + 1 ELSE k, part, flat, ks)
Sampled(part, kept) ==
  LET flat == TLCEval(FlatPoints(12))
      ks == TLCEval({kept[i] : i \in DOMAIN kept})
  IN /\ TRUE = (IF part = 8 \/ pts = <<>> THEN kept = [i \in DOMAIN pts |-> i]
                ELSE Distinct(kept) /\ flat \subseteq ks /\ ks \subseteq DOMAIN pts /\ Fair(1, 0, 0, part, flat, ks))
     /\ UNCHANGED planeVars
=============================================================================
