------------------------------- MODULE Places -------------------------------
(* Descriptors of clouds and their similarity, in units of 1/10000.           *)
(*   seen   described clouds [c, ok, set], coordinates are integers           *)
(*   sim    similarities found so far, a function from pairs of clouds        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES seen, sim
placeVars == <<seen, sim>>

Begin == seen = <<>> /\ sim = <<>>

Least(S) == CHOOSE m \in S : \A k \in S : m <= k
Most(S) == CHOOSE m \in S : \A k \in S : m >= k
Axis(c, k) == {c[i][k] : i \in DOMAIN c}

(* a cloud without its place: how often each point occurs, from the low corner *)
Count(c, p) == Cardinality({i \in DOMAIN c : c[i] = p})
Shape(c) ==
  IF Len(c) = 0 THEN {}
  ELSE LET low == [k \in 1..3 |-> Least(Axis(c, k))]
       IN {<<c[i][1] - low[1], c[i][2] - low[2], c[i][3] - low[3], Count(c, c[i])>> : i \in DOMAIN c}

(* the longest side *)
Size(c) == Most({Most(Axis(c, k)) - Least(Axis(c, k)) : k \in 1..3})

Describe(c, ok, set) ==
  /\ ok = (Len(c) >= 3)
  /\ seen' = Append(seen, [shape |-> TLCEval(Shape(c)), size |-> IF ok THEN Size(c) ELSE 0, ok |-> ok, set |-> set])
  /\ UNCHANGED sim

Match(a, b, score) ==
  LET p == seen[a]
      q == seen[b]
  IN /\ IF p.ok /\ q.ok /\ p.set = q.set
        THEN /\ score >= 0 /\ score <= 10001
             /\ p.shape = q.shape => score >= 9900
             \* a place of quite another size is another place
             /\ (p.size > 3 * q.size \/ q.size > 3 * p.size) => score < 9500
        ELSE score < 0
     /\ (<<b, a>> \in DOMAIN sim) => sim[<<b, a>>] - score \in -1..1
     /\ sim' = (<<a, b>> :> score) @@ sim
     /\ UNCHANGED seen

(* the similarity of two descriptors is their correlation, here in units of 1/100 *)
RECURSIVE Dot(_, _, _)
Dot(a, b, n) == IF n = 0 THEN 0 ELSE a[n] * b[n] + Dot(a, b, n - 1)
RECURSIVE Sum(_, _)
Sum(a, n) == IF n = 0 THEN 0 ELSE a[n] + Sum(a, n - 1)
Together(a, b) == Len(a) * Dot(a, b, Len(a)) - Sum(a, Len(a)) * Sum(b, Len(b))
Compare(a, b, score) ==
  LET square == Together(a, b) * Together(a, b) * 100
      most == Together(a, a) * Together(b, b)
      low == IF score < 1 THEN 0 ELSE score - 1
  IN /\ score >= 0 /\ score <= 100
     /\ (low * low * most) \div 100 <= square
     /\ square <= ((score + 1) * (score + 1) * most) \div 100
     /\ UNCHANGED placeVars
=============================================================================
