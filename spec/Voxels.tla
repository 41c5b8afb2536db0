------------------------------- MODULE Voxels -------------------------------
(* The occupancy map.  Positions in 1/8 of a cell, occupancy in 1/256.  A point *)
(* is <<x, y, z, intensity>>.  A cell keeps the set of occupancies it can have: *)
(* what the order of the points within a scan leaves open, narrowed by what is  *)
(* observed.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S \cup {d} : \A y \in S \cup {d} : y <= x
CellOf(p) == <<p[1] \div 8, p[2] \div 8, p[3] \div 8>>

(* one observation with the given probability in 1/1000: the odds multiply *)
Step(p, h) ==
  LET num == 256 * p * h
      den == p * h + (256 - p) * (1000 - h)
      q == num \div den
      r == num % den
  IN {Clamp(x, 25, 230) : x \in {q} \cup (IF r * 1000 < den THEN {q - 1} ELSE {})
                                    \cup (IF (den - r) * 1000 < den THEN {q + 1} ELSE {})}
(* tabulated for the probabilities in use *)
Used == {100, 300, 400, 480, 490, 499, 501, 510, 550, 600, 700, 900}
Table == TLCEval([h \in Used |-> [p \in 25..230 |-> Step(p, h)]])
StepAll(S, h) == TLCEval(UNION {Table[h][p] : p \in S})

RECURSIVE Times(_, _, _)
Times(S, n, h) == IF n = 0 THEN S ELSE Times(StepAll(S, h), n - 1, h)

(* cells passed on the way from o to the cell of p, along an axis *)
Passes(o, p, c) ==
  LET e == CellOf(p) IN
  /\ c # e
  /\ \A k \in 1..3 : \/ (o[k] <= c[k] /\ c[k] <= e[k])
                     \/ (e[k] <= c[k] /\ c[k] <= o[k])

(* set is [hit, miss, cap, threads ..] with the probabilities after limiting *)
Limit(s) == [s EXCEPT !.hit = Clamp(s.hit, 501, 900), !.miss = Clamp(s.miss, 100, 499)]

New == [ps |-> {128}, must |-> {}, may |-> {}, room |-> 0, top |-> 0, fresh |-> TRUE]
Cell(cells, c, s) == IF c \in DOMAIN cells THEN cells[c] ELSE [New EXCEPT !.room = s.cap]

(* a cell after a scan from cell o with points pts *)
After(v, c, o, pts, s) ==
  LET hits == {i \in DOMAIN pts : CellOf(pts[i]) = c}
      k == Cardinality(hits)
      passing == {i \in DOMAIN pts : Passes(o, pts[i], c)}
      first == IF k = 0 THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j
      early == {i \in passing : i < first}
      new == {pts[i] : i \in hits}
      ps == IF k = 0 THEN Times(v.ps, Cardinality(passing), s.miss)
            ELSE IF s.threads = 1
            THEN UNION {Times(Times(v.ps, j, s.miss), k, s.hit) : j \in 0..(IF v.fresh THEN 0 ELSE Cardinality(early))}
            ELSE IF passing = {} THEN Times(v.ps, k, s.hit)
            ELSE 25..MaxOf(Times(v.ps, k, s.hit), 25)     \* in any order: at most all raises
  IN [ps |-> ps,
      must |-> IF k <= v.room THEN v.must \cup new ELSE v.must,
      may |-> IF k <= v.room \/ v.room = 0 THEN v.may ELSE new,
      room |-> IF k <= v.room THEN v.room - k ELSE 0,
      top |-> MaxOf({p[4] : p \in new}, v.top),
      fresh |-> FALSE]
Scan(cells, o, pts, s) ==
  LET touched == {CellOf(pts[i]) : i \in DOMAIN pts}
      lift == <<o[1], o[2], o[3] + s.lift>>
  IN [c \in DOMAIN cells \cup touched |-> After(Cell(cells, c, s), c, lift, pts, s)]

(* ---- outputs ---- *)
Pos(p) == <<p[1], p[2], p[3]>>
Number(v, s) == s.cap - v.room
RECURSIVE Sum(_, _)
Sum(S, k) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[k] + Sum(S \ {x}, k)
Shade(x) == LET g == (x * 7) \div 5 IN IF g > 255 THEN 255 ELSE g
(* what was recorded in a cell, given the points and values reported for it *)
Shows(v, s, how, R, pts, val) ==
  LET got == {Pos(pts[i]) : i \in R}
      kept == v.must
      n == Number(v, s)
  IN IF s.avg
     THEN /\ Cardinality(R) = 1
          /\ \A i \in R : /\ (v.may = {} => \A k \in 1..3 : Abs(n * pts[i][k] - 1000 * Sum(kept, k)) <= 4 * n)
                          /\ (how = "rgb" => Abs(val[i] - Shade(v.top)) <= 1)
                          /\ (how # "rgb" /\ s.max => val[i] = v.top)
     ELSE /\ Cardinality(R) = n /\ Cardinality(got) = n
          /\ {Pos(p) : p \in kept} \subseteq got /\ got \subseteq {Pos(p) : p \in kept \cup v.may}
          /\ \A i \in R :
               IF how = "rgb" THEN Abs(val[i] - Shade(v.top)) <= 1
               ELSE IF s.max THEN val[i] = v.top
               ELSE \E p \in kept \cup v.may : Pos(p) = Pos(pts[i]) /\ p[4] = val[i]
CellOut(p, s) == IF s.avg THEN <<p[1] \div 8000, p[2] \div 8000, p[3] \div 8000>> ELSE CellOf(p)
Output(cells, s, how, k, pts, val) ==
  LET In(c) == {i \in DOMAIN pts : CellOut(pts[i], s) = c} IN
  /\ \A i \in DOMAIN pts : CellOut(pts[i], s) \in DOMAIN cells
  /\ \A c \in DOMAIN cells :
       IF In(c) # {} THEN (\E p \in cells[c].ps : p >= k) /\ Shows(cells[c], s, how, In(c), pts, val)
       ELSE \E p \in cells[c].ps : p < k
Narrow(cells, s, k, pts) ==
  [c \in DOMAIN cells |->
    LET shown == \E i \in DOMAIN pts : CellOut(pts[i], s) = c
    IN [cells[c] EXCEPT !.ps = {p \in @ : (p >= k) = shown}]]
=============================================================================
