---------------------------- MODULE Trace_Voxels ----------------------------
EXTENDS Voxels, TraceBase
VARIABLES set, cells
Init == TraceStart /\ set = <<>> /\ cells = <<>>
Next ==
  /\ Advance
  /\ \/ Is("setup") /\ set' = Limit(Ev) /\ UNCHANGED cells
     \/ Is("scan") /\ cells' = Scan(cells, Ev.o, Ev.pts, set) /\ UNCHANGED set
     \/ /\ Is("out") /\ TRUE = Output(cells, set, Ev.how, Ev.k, Ev.pts, Ev.v)
        /\ cells' = Narrow(cells, set, Ev.k, Ev.pts) /\ UNCHANGED set
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED <<set, cells>>
Spec == Init /\ [][Next]_<<set, cells, th, ti>>
=============================================================================
