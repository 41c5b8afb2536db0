----------------------------- MODULE Gen_Holder -----------------------------
(* All uses of one cloud up to a length, as operation numbers for the driver:  *)
(* 0 replace, 1 give normals, 2 move, 3 store, 4 drop, 5 read the time, 6 use; *)
(* 100 + r store with space for r bytes only, 2000 + k drop and cut the stored *)
(* file at byte k.                                                             *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Length, Room, Cut   \* length of histories, largest values of r and k

VARIABLES ops, memory, stored, normals
vars == <<ops, memory, stored, normals>>

Init == ops = <<>> /\ memory = TRUE /\ stored = FALSE /\ normals = FALSE

Do(k) == ops' = Append(ops, k)
Step ==
  \/ memory /\ Do(0) /\ stored' = FALSE /\ normals' = FALSE /\ UNCHANGED memory
  \/ memory /\ ~normals /\ Do(1) /\ normals' = TRUE /\ UNCHANGED <<memory, stored>>
  \/ memory /\ Do(2) /\ stored' = FALSE /\ UNCHANGED <<memory, normals>>
  \/ memory /\ Do(3) /\ stored' = TRUE /\ UNCHANGED <<memory, normals>>
  \/ stored /\ Do(4) /\ memory' = FALSE /\ UNCHANGED <<stored, normals>>
  \/ Do(5) /\ UNCHANGED <<memory, stored, normals>>
  \/ Do(6) /\ memory' = TRUE /\ UNCHANGED <<stored, normals>>
Next == Len(ops) < Length /\ Step
Spec == Init /\ [][Next]_vars

Faults ==
  {pre \o <<100 + r>> : pre \in {<<>>, <<1>>, <<3, 2>>}, r \in 0..Room}
  \cup {pre \o <<3, 2000 + k>> : pre \in {<<>>, <<1>>}, k \in 0..Cut}
Emit(s) == PrintT("@@" \o ToJson(s))
ASSUME \A s \in Faults : Emit(s)
Printed == Len(ops) = Length => Emit(ops)
=============================================================================
