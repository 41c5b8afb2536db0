-------------------------------- MODULE Depth --------------------------------
(* Clusters of a range image: pixels next to each other (two columns apart at  *)
(* most, or one row) belong together when their ranges are alike.  Columns     *)
(* close the circle.  Only clusters of 20 pixels and more count.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES size,   \* <<rows, columns>>
          pts,    \* points <<row, column, range>> as given
          px      \* pixel -> number of the first point in it
depthVars == <<size, pts, px>>

DepthInit == size = <<0, 0>> /\ pts = <<>> /\ px = <<>>

First(p, s) == CHOOSE i \in DOMAIN s : <<s[i][1], s[i][2]>> = p /\ \A j \in 1..(i - 1) : <<s[j][1], s[j][2]>> # p
Image(rows, cols, s) ==
  /\ size' = <<rows, cols>> /\ pts' = s
  /\ px' = TLCEval([p \in {<<s[i][1], s[i][2]>> : i \in DOMAIN s} |-> First(p, s)])

Range(p) == pts[px[p]][3]
(* ranges in between near and far do not occur but in hidden points *)
Alike(a, b) == (a <= 2 * b) /\ (b <= 2 * a)
Around(p) ==
  {q \in {<<p[1], (p[2] + d) % size[2]>> : d \in {-2, -1, 1, 2}} \cup {<<p[1] - 1, p[2]>>, <<p[1] + 1, p[2]>>} :
     q \in DOMAIN px /\ q # p /\ Alike(Range(p), Range(q))}
Next2 == [p \in DOMAIN px |-> Around(p)]
RECURSIVE Flood(_, _, _)
Flood(adj, done, front) ==
  IF front = {} THEN done
  ELSE LET new == (UNION {adj[p] : p \in front}) \ done IN Flood(adj, done \cup new, new)
RECURSIVE Parts(_, _)
Parts(adj, rest) ==
  IF rest = {} THEN {}
  ELSE LET p == CHOOSE p \in rest : TRUE
           c == Flood(adj, {p}, {p})
       IN {c} \cup Parts(adj, rest \ c)
Large == LET adj == TLCEval(Next2) IN {c \in Parts(adj, DOMAIN px) : Cardinality(c) >= 20}

(* found: <<number of a point, label>> *)
Clusters(found) ==
  LET labels == {found[i][2] : i \in DOMAIN found}
      members(l) == {found[i][1] : i \in {j \in DOMAIN found : found[j][2] = l}}
      want == {{px[p] : p \in c} : c \in Large}
  IN /\ TRUE = ({members(l) : l \in labels} = want)
     /\ TRUE = (Len(found) = Cardinality(UNION want) /\ Cardinality(labels) = Cardinality(want))
     /\ UNCHANGED depthVars

Grey(v) == <<v, v, v>>
Shade(p, most, colour) ==
  IF p \notin DOMAIN px THEN (IF colour THEN <<0, 255, 0>> ELSE Grey(0))
  ELSE IF Range(p) > most THEN Grey(0) ELSE Grey((Range(p) * 255) \div most)
NearPx(a, b) == \A k \in 1..3 : a[k] - b[k] \in -1..1
Picture(most, colour, rows) ==
  /\ TRUE = (Len(rows) = size[1])
  /\ TRUE = (\A y \in DOMAIN rows : Len(rows[y]) = size[2] /\
              \A z \in DOMAIN rows[y] : NearPx(rows[y][z], Shade(<<y - 1, z - 1>>, most, colour)))
  /\ UNCHANGED depthVars
=============================================================================
