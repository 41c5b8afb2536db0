--------------------------- MODULE Trace_Pipeline ---------------------------
EXTENDS Pipeline, TraceBase

TagSet == {p \in {"P01", "P02", "P03", "P04", "P05", "P06", "P08", "P09", "P13", "P14", "P16", "P17"} : p = IOEnv.TAGS \/ IOEnv.TAGS = "ALL"}

Init == PipeInit /\ TraceStart

Pos(p) == <<p[1], p[2], p[3], p[4]>>
OnGrid(p) == p[5] = 1

Observed ==
  /\ Advance
  /\ \/ Is("cfg") /\ Configure(Ev)
     \/ Is("ins") /\ Insert(Ev.pts, Ev.t, Ev.asked)
     \/ Is("insret") /\ Inserted
     \/ Is("fa") /\ OnGrid(Ev.res) /\ Register(Ev.pts, Ev.t, Ev.tpts, Pos(Ev.res), Ev.gs, Ev.gr)
     \/ Is("ba") /\ (T("P04") => OnGrid(Ev.guess))
                 /\ MatchBegin(Ev.sp, Ev.st, Ev.tp, Pos(Ev.guess), Pos(Ev.res), Ev.score)
     \/ Is("baret") /\ MatchEnd(Ev.id)
     \/ Is("ss") /\ (T("P04") => OnGrid(Ev.pose)) /\ Show(Ev.pts, Pos(Ev.pose))
     \/ Is("sp") /\ (T("P04") => \A k \in DOMAIN Ev.poses : OnGrid(Ev.poses[k]))
                 /\ ShowPath([k \in DOMAIN Ev.poses |-> Pos(Ev.poses[k])])
     \/ Is("se") /\ ShowGraph([k \in DOMAIN Ev.vs |-> [id |-> Ev.vs[k].id, pose |-> IF OnGrid(Ev.vs[k].pose) THEN Pos(Ev.vs[k].pose) ELSE <<>>]],
                              [k \in DOMAIN Ev.es |-> [a |-> Ev.es[k].a, b |-> Ev.es[k].b, t |-> IF OnGrid(Ev.es[k].t) THEN Pos(Ev.es[k].t) ELSE <<>>]])
     \/ Is("sm") /\ ShowMap(Ev.pts)
     \/ Is("la") /\ (T("P16") => OnGrid(Ev.guess)) /\ LoopMatch(Ev.sp, Ev.tp, Pos(Ev.guess), Ev.ok)
     \/ Is("gps") /\ PositionFix(Ev.t, Ev.p, Ev.st = 0)
     \/ Is("imu") /\ Inertial(Ev.t)
     \/ Is("imuret") /\ UNCHANGED pipeVars
     \/ Is("fin") /\ FinishCall
     \/ Is("finret") /\ FinishReturn
     \/ Is("index") /\ IndexFile(Ev.ok, Ev.n, [k \in DOMAIN Ev.subs |->
                          [id |-> Ev.subs[k].id, file |-> Ev.subs[k].file, t |-> Ev.subs[k].t,
                           pts |-> Ev.subs[k].pts, conn |-> Ev.subs[k].conn,
                           pose |-> IF OnGrid(Ev.subs[k].pose) THEN Pos(Ev.subs[k].pose) ELSE <<>>]])
     \/ Is("pathcsv") /\ PathText(Ev.ok, [k \in DOMAIN Ev.rows |->
                          [i |-> Ev.rows[k].i,
                           pose |-> IF OnGrid(Ev.rows[k].pose) THEN Pos(Ev.rows[k].pose) ELSE <<>>]])
     \/ Is("pathpcd") /\ PathCloud(Ev.ok, Ev.err, Ev.pts)
     \/ Is("kitti") /\ PoseText(Ev.ok, [k \in DOMAIN Ev.rows |->
                          IF OnGrid(Ev.rows[k]) THEN Pos(Ev.rows[k]) ELSE <<>>])
     \/ Is("enu") /\ PlaceCloud(Ev.pts)
     \/ Is("rawenu") /\ FixCloud(Ev.pts)
     \/ Is("whole") /\ WholeMap(Ev.ok, Ev.err, Ev.pts)
     \/ Is("part") /\ PartMap(Ev.k, Ev.ok, Ev.err, Ev.pts)
     \/ Is("static") /\ (NSub > 0 => StaticMap(Ev.ok, Ev.err, Ev.pts, 0, NSub - 1)) /\ (NSub = 0 => UNCHANGED pipeVars)
     \/ Is("spart") /\ StaticPart(Ev.k, Ev.ok, Ev.err, Ev.pts)
     \/ Is("package") /\ PackageFile(Ev.ok, Ev.pieces)
     \/ Is("outs") /\ FileCounts(Ev.parts, Ev.sparts, Ev.whole, Ev.smap)
     \/ Is("del") /\ Delete
     \/ Is("delret") /\ Deleted(Ev.live)
     \/ Is("done") /\ UNCHANGED pipeVars
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED pipeVars

Spec == Init /\ [][Observed]_<<pipeVars, th, ti>>
=============================================================================
