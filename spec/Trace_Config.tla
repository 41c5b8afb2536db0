---------------------------- MODULE Trace_Config ----------------------------
EXTENDS Config, TraceBase
VARIABLES asked   \* the file being loaded, <<>> once the outcome is known
Init == TraceStart /\ Begin /\ asked = <<>>
Usable(e) == e.kind = "file"
Matches(e) ==
  /\ {e.all[k][1] : k \in DOMAIN e.all} = Names
  /\ \A k \in DOMAIN e.all : e.all[k][2] = conf'[e.all[k][1]]
  /\ e.front = picked'[1] /\ e.back = picked'[2]
  /\ e.dirs
Next ==
  /\ Advance
  /\ \/ Is("config") /\ asked' = <<Ev>> /\ UNCHANGED cvars
     \/ /\ Is("shown") /\ asked # <<>>
        /\ IF Usable(asked[1]) THEN Load(asked[1].given, asked[1].front, asked[1].back) ELSE Fallback
        /\ Matches(Ev) /\ asked' = <<>>
     \/ Is("switch") /\ asked = <<>> /\ Switch(Ev.what, Ev.on) /\ UNCHANGED asked
     \/ Is("shown") /\ asked = <<>> /\ UNCHANGED <<cvars, asked>> /\ Matches(Ev)
     \/ /\ Is("exit") /\ UNCHANGED <<cvars, asked>>
        /\ IF asked = <<>> THEN Ev.st = "ok"
           ELSE Usable(asked[1]) /\ ~Accepts(asked[1].given) /\ Ev.st \notin {"ok", "hang", "stuck"}
Spec == Init /\ [][Next]_<<cvars, asked, th, ti>>
=============================================================================
