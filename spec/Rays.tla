-------------------------------- MODULE Rays --------------------------------
(* Cells visited by a ray; lengths in 1/8 of a metre.                         *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Cell(p, step) == <<p[1] \div step, p[2] \div step, p[3] \div step>>
Max3(d) == IF d[1] >= d[2] /\ d[1] >= d[3] THEN d[1] ELSE IF d[2] >= d[3] THEN d[2] ELSE d[3]
(* cells v from cell s to cell e: one step of the longest axis at a time, never *)
(* further than half a cell from the straight line                              *)
Walk(s, e, v) ==
  LET d == [k \in 1..3 |-> Abs(e[k] - s[k])]
      n == Max3(d)
  IN /\ Len(v) = n + 1 /\ v[1] = s /\ v[n + 1] = e
     /\ \A i \in 2..(n + 1) : v[i] # v[i-1] /\ \A k \in 1..3 : Abs(v[i][k] - v[i-1][k]) <= 1
     /\ \A i \in 1..(n + 1) : \A k \in 1..3 :
          2 * Abs(n * (v[i][k] - s[k]) - (i - 1) * (e[k] - s[k])) <= n
Ray(a, b, step, u, v) == Walk(Cell(a, step), Cell(b, step), u) /\ Walk(Cell(a, step), Cell(b, step), v)
=============================================================================
