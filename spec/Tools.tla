-------------------------------- MODULE Tools --------------------------------
(* The command-line programs that work on saved maps.  A directory holds        *)
(* clouds (sequences of points <<x, y, z, reflectivity>>, in eighths) and files *)
(* that are not clouds; a program reads some of them and writes one result.     *)
(* A program whose input is missing reports failure and writes nothing; a file  *)
(* that is not a cloud contributes no point; no program changes what it reads.  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES clouds, broken
toolVars == <<clouds, broken>>

Begin == clouds = <<>> /\ broken = {}

Readable(f) == f \in DOMAIN clouds
Points(s) == {s[k] : k \in DOMAIN s}
Times(s, p) == Cardinality({k \in DOMAIN s : s[k] = p})
SamePoints(s, t) == Len(s) = Len(t) /\ \A p \in Points(s) \cup Points(t) : Times(s, p) = Times(t, p)

SaveCloud(f, pts) ==
  /\ clouds' = [g \in DOMAIN clouds \cup {f} |-> IF g = f THEN pts ELSE clouds[g]]
  /\ broken' = broken \ {f}
SaveOther(f) ==
  /\ broken' = broken \cup {f}
  /\ UNCHANGED clouds

(* a piece of a package: its cloud relative to its centre *)
Placed(piece) ==
  IF Readable(piece.f)
  THEN [k \in DOMAIN clouds[piece.f] |->
         LET p == clouds[piece.f][k] IN <<p[1] + piece.x, p[2] + piece.y, p[3], p[4]>>]
  ELSE <<>>
RECURSIVE Joined(_)
Joined(pieces) == IF pieces = <<>> THEN <<>> ELSE Placed(Head(pieces)) \o Joined(Tail(pieces))

(* st: 0 success, 1 failure reported, 2 neither *)
Refused(st, made) == st = 1 /\ ~made

Join(good, pieces, st, made, read, pts) ==
  /\ TRUE = (IF ~good THEN Refused(st, made)
             ELSE LET whole == Joined(pieces) IN
                  /\ st = 0
                  /\ (whole = <<>>) => ~made
                  /\ (whole # <<>>) => (made /\ read /\ SamePoints(whole, pts)))
  /\ UNCHANGED toolVars

(* a share of ratio/8 of the points, rounded down, none twice *)
Share(n, ratio) == IF ratio >= 8 THEN n ELSE (n * ratio) \div 8
Sample(f, ratio, st, made, read, pts) ==
  /\ TRUE = (IF f \in broken THEN st < 2 /\ pts = <<>>
             ELSE IF ~Readable(f) THEN Refused(st, made)
             ELSE LET c == clouds[f] want == Share(Len(c), ratio) IN
                  /\ st = 0
                  /\ (want > 0) => (made /\ read)
                  /\ Len(pts) = want
                  /\ \A p \in Points(pts) : Times(pts, p) <= Times(c, p))
  /\ UNCHANGED toolVars

Path(f, st, made, pts) ==
  /\ TRUE = (IF f \in broken THEN st < 2 /\ pts = <<>>
             ELSE IF ~Readable(f) THEN Refused(st, made)
             ELSE st = 0 /\ made /\ pts = clouds[f])
  /\ UNCHANGED toolVars
=============================================================================
