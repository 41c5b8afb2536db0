---------------------------- MODULE Trace_Loops ----------------------------
EXTENDS Loops, TraceBase
VARIABLES cur
Init == TraceStart /\ Begin /\ cur = <<>>
SetOf(s) == {s[i] : i \in DOMAIN s}
Next ==
  /\ Advance
  /\ \/ Is("settings") /\ Settings(Ev) /\ UNCHANGED cur
     \/ Is("window") /\ Window(Ev.from, Ev.to) /\ UNCHANGED cur
     \/ Is("move") /\ Move(Ev.k, Ev.at) /\ UNCHANGED cur
     \/ Is("begin") /\ cur' = Ev /\ UNCHANGED lvars
     \/ /\ Is("added")
        /\ Ev.index = Len(frames) /\ Ev.frames = Len(frames) + 1
        /\ Ev.status = status
        /\ Cardinality(SetOf(Ev.calls)) = Len(Ev.calls) /\ Cardinality(SetOf(Ev.edges)) = Len(Ev.edges)
        /\ Add(cur.at, cur.group, cur.detect, SetOf(Ev.calls), SetOf(Ev.edges), Ev.closed)
        /\ UNCHANGED cur
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED <<lvars, cur>>
Spec == Init /\ [][Next]_<<lvars, cur, th, ti>>
=============================================================================
