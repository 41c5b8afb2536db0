----------------------------- MODULE Trace_Files -----------------------------
EXTENDS Files, TraceBase

Init == Begin /\ TraceStart
Next ==
  /\ Advance
  /\ \/ Is("touch") /\ Touch(Ev.p)
     \/ Is("link") /\ Link(Ev.p, Ev.to)
     \/ Is("make") /\ MakeAll(<<Ev.p>>, <<Ev.got>>)
     \/ Is("makes") /\ MakeAll(Ev.ps, Ev.got)
     \/ Is("exists") /\ Exists(Ev.p, Ev.got)
     \/ Is("list") /\ List(Ev.p, Ev.got)
     \/ Is("folder") /\ Folder(Ev.p, Ev.got)
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED fileVars
Spec == Init /\ [][Next]_<<fileVars, th, ti>>
=============================================================================
