--------------------------- MODULE Trace_Packages ---------------------------
EXTENDS Packages, TraceBase
VARIABLES opt, maps
Init == TraceStart /\ opt = <<>> /\ maps = <<>>
SetOf(s) == {s[i] : i \in DOMAIN s}
Written ==
  IF maps = <<>> THEN ~Ev.ok /\ ~Ev.threw /\ Ev.pieces = <<>> /\ Ev.files = <<>>
  ELSE /\ Ev.ok /\ ~Ev.threw /\ Ev.described
       /\ LET P == SetOf(Ev.pieces)
              names == {p.file : p \in P}
          IN /\ \A p \in P : p.read
             /\ Cardinality(names) = Len(Ev.pieces)
             /\ SetOf(Ev.files) = names \cup {opt.name}
             /\ \A p \in P : Len(p.pts) = Cardinality(SetOf(p.pts))
             /\ Len(Ev.pieces) = Cardinality(P)
             /\ {[x |-> p.x, y |-> p.y, pts |-> SetOf(p.pts)] : p \in {q \in P : q.pts # <<>>}} = Package(maps, opt.half, opt.border)
Next ==
  /\ Advance
  /\ \/ Is("options") /\ opt' = Ev /\ UNCHANGED maps
     \/ Is("submap") /\ maps' = Append(maps, SubmapOf(Ev)) /\ UNCHANGED opt
     \/ Is("package") /\ TRUE = Written /\ UNCHANGED <<opt, maps>>
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED <<opt, maps>>
Spec == Init /\ [][Next]_<<opt, maps, th, ti>>
=============================================================================
