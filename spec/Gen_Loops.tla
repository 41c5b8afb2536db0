------------------------------ MODULE Gen_Loops ------------------------------
(* All ways a trajectory leaves and comes back to its start, for the driver:   *)
(* settings ignore, tries, nearest, then for every submap 1 at the start, 0    *)
(* elsewhere, 2 and 3 the same without looking for loops.                      *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Length, Skips   \* Skips: also submaps for which no loop is looked for
VARIABLE way
Init == way \in {<<i, t, n>> : i \in 0..2, t \in 0..2, n \in {1, 3}}
Next == Len(way) < Length + 3 /\ \E k \in (IF Skips THEN 0..3 ELSE 0..1) : way' = Append(way, k)
Spec == Init /\ [][Next]_way
Printed == Len(way) = Length + 3 => PrintT("@@" \o ToJson(way))
=============================================================================
