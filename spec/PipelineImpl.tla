---------------------------- MODULE PipelineImpl ----------------------------
(* A session as implemented: a caller inserts scans and another one finishes;  *)
(* the front end takes scans from a queue, registers them and appends key      *)
(* frames; the submap thread groups key frames and hands pairs to matchers;    *)
(* the connector joins matched submaps and writes the results.  The stages     *)
(* tell each other by flags and counts when they are done.                     *)
(*                                                                             *)
(* Pipeline, which also judges the recorded histories of the program, watches: *)
(* an observable step it does not allow sets bad.                              *)
(*   Variant "ok" is the code; the others are mistakes the model must reject:  *)
(*   "endfirst"  the front end leaves as soon as finishing was requested       *)
(*   "remfirst"  it looks whether scans remain before it looks at the request  *)
(*   "countfirst" a key frame is counted before it is there                    *)
(*   "sizefirst" the submap thread reads the count before the flag             *)
(*   "connfirst" the connector reads the number of submaps before the flag     *)
(*   "early"     the submap thread does not wait for the front end to start    *)
(*   "tellfirst" a matcher reports success before it has matched               *)
(*   "leave"     finishing does not wait for the submap thread                 *)
(*   "nodrain"   the submap thread does not wait for its matchers              *)
EXTENDS Pipeline, TLC

CONSTANTS Scans, PerSubmap, Matchers, Variant

VARIABLES queue, ended, running, frames, ready, subs, pend, active, matched, subdone, out, bad,
          ipc, next,                  \* inserting caller
          fpc, cur, got,              \* front end: current scan, registered so far
          spc, sflag, sidx,           \* submap thread
          cpc, cflag, cfin, cto,      \* connector
          xpc                         \* finishing caller
shared == <<queue, ended, running, frames, ready, subs, pend, active, matched, subdone, out>>
insVars == <<ipc, next>>
frontVars == <<fpc, cur, got>>
subVars == <<spc, sflag, sidx>>
connVars == <<cpc, cflag, cfin, cto>>
vars == <<pipeVars, shared, bad, insVars, frontVars, subVars, connVars, xpc>>

Cfg == [acc |-> 1, filter |-> FALSE, mount |-> Ident, imu |-> FALSE, frames |-> PerSubmap, trange |-> 1, arange |-> 0,
        straight |-> FALSE, cbs |-> TRUE, cbp |-> FALSE, min |-> 0, loops |-> FALSE]
Step == <<2, 0, 0, 1>>
Pts(n) == << <<n, n, 1, 0>> >>
None == [pts |-> <<>>, t |-> 0, pose |-> Ident]

Init ==
  /\ c = Cfg /\ part = <<>> /\ kept = <<>> /\ sure = 0 /\ reg = 0 /\ kf = <<>> /\ begun = {} /\ done = {}
  /\ rel = <<>> /\ shown = 0 /\ path = 0 /\ fin = "no" /\ phase = "up"
  /\ x = [trail |-> <<>>, loops |-> {}, fixes |-> <<>>, imu0 |-> -1]
  /\ queue = <<>> /\ ended = FALSE /\ running = FALSE /\ frames = <<>> /\ ready = 0 /\ subs = <<>>
  /\ pend = <<>> /\ active = {} /\ matched = {} /\ subdone = FALSE /\ out = 0 /\ bad = FALSE
  /\ ipc = "idle" /\ next = 1 /\ fpc = "start" /\ cur = None /\ got = <<>>
  /\ spc = "start" /\ sflag = FALSE /\ sidx = 0 /\ cpc = "flag" /\ cflag = FALSE /\ cfin = 0 /\ cto = 0 /\ xpc = "idle"

Quiet == UNCHANGED <<pipeVars, bad>>
(* an observable step *)
Seen(A) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED pipeVars

(* ---- inserting ---- *)
InsertCall ==
  /\ ipc = "idle" /\ next <= Scans /\ spc # "start"  \* the session is up
  /\ Seen(Insert(Pts(next), next, xpc \in {"front", "subs"}))
  /\ ipc' = "look" /\ UNCHANGED <<next, shared>>
InsertLook ==
  /\ ipc = "look"
  /\ ipc' = IF ended /\ Variant # "late" THEN "ret" ELSE "add"
  /\ UNCHANGED <<next, shared>> /\ Quiet
InsertAdd ==
  /\ ipc = "add"
  /\ queue' = Append(queue, next) /\ ipc' = "ret"
  /\ UNCHANGED <<next, ended, running, frames, ready, subs, pend, active, matched, subdone, out>> /\ Quiet
InsertReturn ==
  /\ ipc = "ret"
  /\ Seen(Inserted)
  /\ ipc' = "idle" /\ next' = next + 1 /\ UNCHANGED shared
Inserting == (InsertCall \/ InsertLook \/ InsertAdd \/ InsertReturn) /\ UNCHANGED <<frontVars, subVars, connVars, xpc>>

(* ---- front end ---- *)
Goto(p) == fpc' = p /\ UNCHANGED <<cur, got>>
FrontStart == fpc = "start" /\ running' = TRUE /\ Goto("get") /\ Quiet
  /\ UNCHANGED <<queue, ended, frames, ready, subs, pend, active, matched, subdone, out>>
FrontGet ==
  /\ fpc = "get" /\ Quiet
  /\ UNCHANGED <<ended, running, frames, ready, subs, pend, active, matched, subdone, out>>
  /\ IF queue # <<>>
     THEN /\ queue' = Tail(queue) /\ fpc' = "reg" /\ UNCHANGED got
          /\ cur' = [pts |-> Pts(Head(queue)), t |-> Head(queue), pose |-> Ident]
     ELSE Goto(IF Variant = "remfirst" THEN "rem" ELSE "end") /\ UNCHANGED queue
FrontEnd ==
  /\ fpc = "end" /\ Quiet /\ UNCHANGED shared
  /\ Goto(IF ended THEN (IF Variant \in {"endfirst", "remfirst"} THEN "off" ELSE "rem") ELSE "get")
FrontRemaining ==
  /\ fpc = "rem" /\ Quiet /\ UNCHANGED shared
  /\ Goto(IF queue # <<>> THEN "get" ELSE IF Variant = "remfirst" THEN "end" ELSE "off")
FrontRegister ==
  /\ fpc = "reg" /\ UNCHANGED shared
  /\ LET here == IF got = <<>> THEN cur ELSE [cur EXCEPT !.pose = Compose(got[Len(got)].pose, Step)]
     IN /\ IF got = <<>> THEN Quiet
           ELSE Seen(Register(cur.pts, cur.t, got[Len(got)].pts, Step, <<>>, TRUE))
        /\ cur' = here /\ got' = Append(got, here)
  /\ fpc' = IF Variant = "countfirst" THEN "count" ELSE "push"
FrontPush ==
  /\ fpc = "push" /\ Quiet
  /\ frames' = Append(frames, cur)
  /\ Goto(IF Variant = "countfirst" THEN "get" ELSE "count")
  /\ UNCHANGED <<queue, ended, running, ready, subs, pend, active, matched, subdone, out>>
FrontCount ==
  /\ fpc = "count" /\ Quiet
  /\ ready' = ready + 1
  /\ Goto(IF Variant = "countfirst" THEN "push" ELSE "get")
  /\ UNCHANGED <<queue, ended, running, frames, subs, pend, active, matched, subdone, out>>
FrontOff == fpc = "off" /\ running' = FALSE /\ Goto("gone") /\ Quiet
  /\ UNCHANGED <<queue, ended, frames, ready, subs, pend, active, matched, subdone, out>>
Front == (FrontStart \/ FrontGet \/ FrontEnd \/ FrontRemaining \/ FrontRegister \/ FrontPush \/ FrontCount \/ FrontOff)
  /\ UNCHANGED <<insVars, subVars, connVars, xpc>>

(* ---- submap thread ---- *)
Cloud(s) == Concat([i \in DOMAIN subs[s] |-> Move(Compose(Inverse(subs[s][1].pose), subs[s][i].pose), subs[s][i].pts)])
SubStart == spc = "start" /\ (running \/ Variant = "early") /\ spc' = "flag"
  /\ UNCHANGED <<sflag, sidx, shared>> /\ Quiet
SubFlag ==
  /\ spc = "flag" /\ Quiet /\ UNCHANGED <<sidx, shared>>
  /\ sflag' = ~running /\ spc' = "size"
SubSize ==
  /\ spc = "size" /\ Quiet /\ UNCHANGED <<sflag, sidx, shared>>
  /\ spc' = IF ready - sidx >= PerSubmap THEN "build" ELSE
            IF Variant = "sizefirst" THEN "late" ELSE IF sflag THEN "done" ELSE "flag"
SubLate ==
  /\ spc = "late" /\ Quiet /\ UNCHANGED <<sflag, sidx, shared>>
  /\ spc' = IF ~running THEN "done" ELSE "flag"
SubBuild ==
  /\ spc = "build" /\ UNCHANGED pipeVars
  /\ IF sidx + PerSubmap <= Len(frames)
     THEN /\ subs' = Append(subs, SubSeq(frames, sidx + 1, sidx + PerSubmap))
          /\ sidx' = sidx + PerSubmap
          /\ spc' = (IF subs = <<>> THEN "flag" ELSE "hand")
          /\ UNCHANGED <<bad, sflag>>
     ELSE bad' = TRUE /\ UNCHANGED <<subs, subVars>>
  /\ UNCHANGED <<queue, ended, running, frames, ready, pend, active, matched, subdone, out>>
SubHand ==
  /\ spc = "hand" /\ Quiet
  /\ pend' = Append(pend, Len(subs)) /\ spc' = "flag" /\ UNCHANGED <<sflag, sidx>>
  /\ UNCHANGED <<queue, ended, running, frames, ready, subs, active, matched, subdone, out>>
SubDone ==
  /\ spc = "done" /\ Quiet
  /\ subdone' = TRUE /\ spc' = "drain" /\ UNCHANGED <<sflag, sidx>>
  /\ UNCHANGED <<queue, ended, running, frames, ready, subs, pend, active, matched, out>>
SubDrain ==
  /\ spc = "drain" /\ Quiet /\ UNCHANGED <<sflag, sidx, shared>>
  /\ (pend = <<>> /\ active = {} /\ cpc = "gone") \/ Variant = "nodrain"
  /\ spc' = "gone"
Grouping == (SubStart \/ SubFlag \/ SubSize \/ SubLate \/ SubBuild \/ SubHand \/ SubDone \/ SubDrain)
  /\ UNCHANGED <<insVars, frontVars, connVars, xpc>>

(* ---- matchers; submap s (from 1) is matched to s - 1 ---- *)
MatchStart ==
  /\ pend # <<>> /\ Cardinality(active) < Matchers
  /\ LET s == Head(pend)
         guess == Compose(Inverse(subs[s - 1][1].pose), subs[s][1].pose)
     IN /\ Seen(MatchBegin(Cloud(s), subs[s][1].t, Cloud(s - 1), guess, guess, 1))
        /\ active' = active \cup {<<s, "match">>}
        /\ matched' = IF Variant = "tellfirst" THEN matched \cup {s} ELSE matched
  /\ pend' = Tail(pend)
  /\ UNCHANGED <<queue, ended, running, frames, ready, subs, subdone, out>>
MatchOver ==
  \E m \in active :
    /\ m[2] = "match"
    /\ Seen(MatchEnd(Cloud(m[1])[1][1]))
    /\ active' = (active \ {m}) \cup {<<m[1], "tell">>}
    /\ UNCHANGED <<queue, ended, running, frames, ready, subs, pend, matched, subdone, out>>
MatchTell ==
  \E m \in active :
    /\ m[2] = "tell" /\ Quiet
    /\ active' = active \ {m} /\ matched' = matched \cup {m[1]}
    /\ UNCHANGED <<queue, ended, running, frames, ready, subs, pend, subdone, out>>
Matching == (MatchStart \/ MatchOver \/ MatchTell) /\ UNCHANGED <<insVars, frontVars, subVars, connVars, xpc>>

(* ---- connector; cfin submaps behind the first are joined ---- *)
ConnFlag ==
  /\ cpc = "flag" /\ Quiet /\ UNCHANGED <<cfin, cto, shared>>
  /\ cflag' = subdone /\ cpc' = "size"
ConnSize ==
  /\ cpc = "size" /\ Quiet /\ UNCHANGED <<cflag, cfin, cto, shared>>
  /\ cpc' = IF subs = <<>> \/ Len(subs) - 1 = cfin
            THEN (IF Variant = "connfirst" THEN "late" ELSE IF cflag THEN "out" ELSE "flag")
            ELSE "collect"
ConnLate ==
  /\ cpc = "late" /\ Quiet /\ UNCHANGED <<cflag, cfin, cto, shared>>
  /\ cpc' = IF subdone THEN "out" ELSE "flag"
Matchable == {k \in 0..(Len(subs) - 1) : k >= cfin /\ \A j \in (cfin + 1)..k : (j + 1) \in matched}
ConnCollect ==
  /\ cpc = "collect" /\ Quiet /\ UNCHANGED <<cflag, cfin, shared>>
  /\ cto' = CHOOSE k \in Matchable : \A j \in Matchable : j <= k
  /\ cpc' = IF cto' = cfin THEN "flag" ELSE "show"
ConnShow ==
  /\ cpc = "show" /\ UNCHANGED <<cflag, cto, shared>>
  /\ Seen(Show(Cloud(cfin + 2), subs[cfin + 2][1].pose))
  /\ cfin' = cfin + 1 /\ cpc' = IF cfin + 1 = cto THEN "flag" ELSE "show"
ConnOut ==
  /\ cpc = "out" /\ Quiet /\ UNCHANGED <<cflag, cfin, cto>>
  /\ out' = out + 1 /\ cpc' = "gone"
  /\ UNCHANGED <<queue, ended, running, frames, ready, subs, pend, active, matched, subdone>>
Connecting == (ConnFlag \/ ConnSize \/ ConnLate \/ ConnCollect \/ ConnShow \/ ConnOut)
  /\ UNCHANGED <<insVars, frontVars, subVars, xpc>>

(* ---- finishing ---- *)
FinCall == xpc = "idle" /\ spc # "start" /\ xpc' = "end" /\ Seen(FinishCall) /\ UNCHANGED shared
FinEnd == xpc = "end" /\ xpc' = "front" /\ ended' = TRUE /\ Quiet
  /\ UNCHANGED <<queue, running, frames, ready, subs, pend, active, matched, subdone, out>>
FinFront == xpc = "front" /\ fpc = "gone" /\ xpc' = "subs" /\ Quiet /\ UNCHANGED shared
FinReturn == xpc = "subs" /\ (spc = "gone" \/ Variant = "leave") /\ xpc' = "gone" /\ Seen(FinishReturn) /\ UNCHANGED shared
Finishing == (FinCall \/ FinEnd \/ FinFront \/ FinReturn) /\ UNCHANGED <<insVars, frontVars, subVars, connVars>>

Next == Inserting \/ Front \/ Grouping \/ Matching \/ Connecting \/ Finishing
Spec == Init /\ [][Next]_vars
  /\ WF_vars(Inserting) /\ WF_vars(Front) /\ WF_vars(Grouping) /\ WF_vars(Matching) /\ WF_vars(Connecting) /\ WF_vars(Finishing)

Allowed == ~bad
(* once finished, the results are written, once, and nothing is going on *)
Complete == fin = "over" => out = 1 /\ pend = <<>> /\ active = {} /\ fpc = "gone" /\ cpc = "gone" /\ Len(frames) = ready
Terminates == <>(fin = "over")
=============================================================================
