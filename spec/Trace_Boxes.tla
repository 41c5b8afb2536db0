---------------------------- MODULE Trace_Boxes ----------------------------
EXTENDS Boxes, TraceBase
Init == TraceStart /\ cube = <<>>
Next ==
  /\ Advance
  /\ \/ Is("cube") /\ Cube(Ev.c, Ev.at, Ev.size, Ev.subs)
     \/ Is("probe") /\ Probe(Ev.p, Ev.in, Ev.k, Ev.subs) /\ UNCHANGED cube
     \/ Is("bbox") /\ Ev.in = InBox(Ev.lo, Ev.hi, Ev.p) /\ UNCHANGED cube
     \/ Is("tree") /\ Tree(Ev.c, Ev.size, Ev.depth, Ev.cap, Ev.in, Ev.out, Ev.max) /\ UNCHANGED cube
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED cube
Spec == Init /\ [][Next]_<<cube, th, ti>>
=============================================================================
