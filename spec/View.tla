-------------------------------- MODULE View ---------------------------------
(* The view of a pose graph: vertices with places, edges in the order given,   *)
(* a text and a picture of them.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES place,  \* vertex -> <<x, y, z>>
          edges,  \* vertex -> <<other end, transform>> in the order given
          seen    \* all <<x, y>> ever given
viewVars == <<place, edges, seen>>

ViewInit == place = <<>> /\ edges = <<>> /\ seen = {}

Put(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]

(* a vertex given again moves and keeps its edges *)
Vertex(a, at) ==
  /\ place' = Put(place, a, at)
  /\ edges' = IF a \in DOMAIN edges THEN edges ELSE Put(edges, a, <<>>)
  /\ seen' = seen \cup {<<at[1], at[2]>>}

(* an edge from or to nowhere is refused *)
Edge(a, b, t) ==
  /\ edges' = IF a \in DOMAIN place /\ b \in DOMAIN place THEN [edges EXCEPT ![a] = Append(@, <<b, t>>)] ELSE edges
  /\ UNCHANGED <<place, seen>>

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A k \in S : m <= k IN <<m>> \o Sorted(S \ {m})
Names == Sorted(DOMAIN place)

Text(lines) ==
  /\ TRUE = (lines = [i \in DOMAIN Names |-> <<Names[i]>> \o [j \in DOMAIN edges[Names[i]] |-> edges[Names[i]][j][1]]])
  /\ UNCHANGED viewVars
Whole(items) ==
  /\ TRUE = (items = [i \in DOMAIN Names |-> <<Names[i], place[Names[i]], edges[Names[i]]>>])
  /\ UNCHANGED viewVars

Least(S) == CHOOSE m \in S : \A k \in S : m <= k
Most(S) == CHOOSE m \in S : \A k \in S : m >= k
Abs(n) == IF n < 0 THEN -n ELSE n
Xs == {s[1] : s \in seen}
Ys == {s[2] : s \in seen}

(* Lines as <<from, to, colour>> in pixels; the picture leaves one metre       *)
(* around all places.                                                          *)
Lines(per) ==
  LET pix(a) == <<(place[a][1] - Least(Xs) + 1) * per, (Most(Ys) + 1 - place[a][2]) * per>>
  IN TLCEval(UNION {{<<pix(a), pix(edges[a][k][1]), IF edges[a][k][1] = a + 1 THEN "b" ELSE "r">> : k \in DOMAIN edges[a]} : a \in DOMAIN place})
Inside(l, x, y) ==
  /\ x >= Least({l[1][1], l[2][1]}) /\ x <= Most({l[1][1], l[2][1]})
  /\ y >= Least({l[1][2], l[2][2]}) /\ y <= Most({l[1][2], l[2][2]})
Cross(l, x, y) == (x - l[1][1]) * (l[2][2] - l[1][2]) - (y - l[1][2]) * (l[2][1] - l[1][1])
Long(l) == Most({Abs(l[2][1] - l[1][1]), Abs(l[2][2] - l[1][2])})
Straight(l) == l[1][1] = l[2][1] \/ l[1][2] = l[2][2] \/ Abs(l[2][1] - l[1][1]) = Abs(l[2][2] - l[1][2])
May(l, x, y) == Inside(l, x, y) /\ (IF Straight(l) THEN Cross(l, x, y) = 0 ELSE Abs(Cross(l, x, y)) <= Long(l))
Must(l, x, y) == IF Straight(l) THEN May(l, x, y) ELSE <<x, y>> \in {l[1], l[2]}
(* a line that is not straight in pixels has a pixel in each of its columns or rows *)
Whole1(l, px) ==
  LET wide == Abs(l[2][1] - l[1][1]) >= Abs(l[2][2] - l[1][2])
      along == IF wide THEN Least({l[1][1], l[2][1]})..Most({l[1][1], l[2][1]}) ELSE Least({l[1][2], l[2][2]})..Most({l[1][2], l[2][2]})
      across == IF wide THEN Least({l[1][2], l[2][2]})..Most({l[1][2], l[2][2]}) ELSE Least({l[1][1], l[2][1]})..Most({l[1][1], l[2][1]})
  IN \A s \in along : \E v \in across :
       LET x == IF wide THEN s ELSE v
           y == IF wide THEN v ELSE s
       IN May(l, x, y) /\ px[y + 1][x + 1] # "w"
Picture(per, there, px) ==
  /\ TRUE = (there = (place # <<>>))
  /\ TRUE = (there =>
       LET ls == Lines(per)
           w == (Most(Xs) - Least(Xs) + 2) * per
           h == (Most(Ys) - Least(Ys) + 2) * per
       IN /\ Len(px) = h /\ \A y \in DOMAIN px : Len(px[y]) = w
          /\ \A y \in DOMAIN px : \A x \in DOMAIN px[y] :
               IF px[y][x] = "w" THEN \A l \in ls : ~Must(l, x - 1, y - 1)
               ELSE \E l \in ls : l[3] = px[y][x] /\ May(l, x - 1, y - 1)
          /\ \A l \in ls : Whole1(l, px))
  /\ UNCHANGED viewVars
=============================================================================
