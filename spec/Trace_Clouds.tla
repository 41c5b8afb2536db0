---------------------------- MODULE Trace_Clouds ----------------------------
EXTENDS Clouds, TraceBase

Init == CloudInit /\ TraceStart
Keep == UNCHANGED cloudVars
Next ==
  /\ Advance
  /\ \/ Is("set") /\ Set(Ev.c, Ev.t, Ev.p) /\ UNCHANGED want
     \/ Is("append") /\ AppendTo(Ev.c, Ev.d) /\ UNCHANGED want
     \/ Is("copy") /\ Copy(Ev.c, Ev.d) /\ UNCHANGED want
     \/ Is("move") /\ MoveHere(Ev.c, Ev.m) /\ UNCHANGED want
     \/ Is("moveto") /\ MoveInto(Ev.c, Ev.d, Ev.m) /\ UNCHANGED want
     \/ Is("topcl") /\ Export(Ev.c, Ev.int, Ev.us, Ev.p) /\ Keep
     \/ Is("frompcl") /\ Import(Ev.c, Ev.us, Ev.p) /\ UNCHANGED want
     \/ Is("pcd") /\ Ev.ok /\ Same(Exchanged(cl[Ev.c].p, TRUE), Ev.p) /\ Keep
     \/ Is("obs") /\ cl[Ev.c].t = Ev.t /\ Same(cl[Ev.c].p, Ev.p) /\ Keep
     \/ Is("matrix") /\ MatrixOf(Ev.p, Ev.m) /\ Keep
     \/ Is("normals") /\ Ev.has = Ev.want /\ (Ev.want => Ev.n = Ev.of) /\ Keep
     \/ /\ Is("mmove") /\ MovedMatrix(Ev.m, Ev.p0, Ev.p1, TRUE) /\ MovedMatrix(Ev.m, Ev.n0, Ev.n1, FALSE)
        /\ Same(MoveAll(Ev.m, Ev.i0), Ev.i1) /\ Keep
     \/ Is("store") /\ Store(Ev.c, Ev.ends) /\ UNCHANGED cl
     \/ Is("load") /\ LoadOk(Ev.cut, Ev.c) /\ Keep
     \/ Is("closed") /\ Ev.w /\ Ev.r /\ Keep
     \* a cloud dropped from memory: comes back whole, or is refused if its file was cut
     \/ Is("hold") /\ want' = [c |-> Ev.c, whole |-> Ev.cut = Ev.size] /\ UNCHANGED cl
     \/ /\ Is("held") /\ Keep
        /\ IF want.whole THEN Ev.in /\ Ev.c = want.c /\ Ev.t = want.c.t
           ELSE ~Ev.in \/ Ev.c.p = <<>>
     \/ Is("hend") /\ (ti > 1 /\ Traces[th][ti-1].e = "hold" => ~want.whole) /\ Keep
     \/ Is("skew") /\ want' = [m |-> Ev.m, p |-> Ev.p] /\ UNCHANGED cl
     \/ Is("unskewed") /\ Unskewed(want.m, want.p, Ev.p) /\ Keep
     \/ Is("exit") /\ Ev.st = "ok" /\ Keep
Spec == Init /\ [][Next]_<<cloudVars, th, ti>>
=============================================================================
