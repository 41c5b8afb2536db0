-------------------------------- MODULE Pool --------------------------------
(* What users of the worker pool may observe.                                 *)
(*   q        accepted tasks not yet taken by a worker, oldest first           *)
(*   calls    submissions in progress, <<submitter, task, "call"/"yes"/"no">>  *)
(*   taken    tasks taken by a worker but not yet started                      *)
(*   running  <<worker, task>>                                                 *)
(*   res      finished tasks with their outcome <<"val"/"exc", value>>         *)
(*   got      tasks whose outcome was fetched                                  *)
(*   phase    "none", "up", "closing" (destruction requested),                 *)
(*            "closed" (no more tasks are accepted), "gone"                    *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES nw, q, calls, taken, running, seen, res, acc, phase
poolVars == <<nw, q, calls, taken, running, seen, res, acc, phase>>

PoolInit ==
  /\ nw = 0 /\ q = <<>> /\ calls = {} /\ taken = {} /\ running = {}
  /\ seen = {} /\ res = {} /\ acc = {} /\ phase = "none"

Create(n) ==
  /\ phase = "none" /\ n > 0
  /\ nw' = n /\ phase' = "up"
  /\ UNCHANGED <<q, calls, taken, running, seen, res, acc>>

SubCall(s, k) ==
  /\ phase \in {"up", "closing", "closed"}
  /\ ~ \E c \in calls : c[1] = s \/ c[2] = k
  /\ k \notin acc
  /\ calls' = calls \cup {<<s, k, "call">>}
  /\ UNCHANGED <<nw, q, taken, running, seen, res, acc, phase>>

(* the critical section of a submission *)
Accept(s, k) ==
  /\ <<s, k, "call">> \in calls
  /\ phase \in {"up", "closing"}
  /\ calls' = (calls \ {<<s, k, "call">>}) \cup {<<s, k, "yes">>}
  /\ q' = Append(q, k)
  /\ acc' = acc \cup {k}
  /\ UNCHANGED <<nw, taken, running, seen, res, phase>>

Refuse(s, k) ==
  /\ <<s, k, "call">> \in calls
  /\ phase = "closed"
  /\ calls' = (calls \ {<<s, k, "call">>}) \cup {<<s, k, "no">>}
  /\ UNCHANGED <<nw, q, taken, running, seen, res, acc, phase>>

SubRet(s, k, ok) ==
  /\ <<s, k, IF ok THEN "yes" ELSE "no">> \in calls
  /\ calls' = calls \ {<<s, k, IF ok THEN "yes" ELSE "no">>}
  /\ UNCHANGED <<nw, q, taken, running, seen, res, acc, phase>>

Take ==
  /\ q # <<>>
  /\ Cardinality(taken) + Cardinality(running) < nw
  /\ taken' = taken \cup {Head(q)}
  /\ q' = Tail(q)
  /\ UNCHANGED <<nw, calls, running, seen, res, acc, phase>>

Start(k, w) ==
  /\ k \in taken
  /\ ~ \E r \in running : r[1] = w
  /\ Cardinality(seen \cup {w}) <= nw
  /\ taken' = taken \ {k}
  /\ running' = running \cup {<<w, k>>}
  /\ seen' = seen \cup {w}
  /\ UNCHANGED <<nw, q, calls, res, acc, phase>>

End(k, w, o) ==
  /\ <<w, k>> \in running
  /\ running' = running \ {<<w, k>>}
  /\ res' = res \cup {<<k, o>>}
  /\ UNCHANGED <<nw, q, calls, taken, seen, acc, phase>>

Get(k, o) ==
  /\ <<k, o>> \in res
  /\ UNCHANGED poolVars

Destroy ==
  /\ phase = "up"
  /\ phase' = "closing"
  /\ UNCHANGED <<nw, q, calls, taken, running, seen, res, acc>>

Close ==
  /\ phase = "closing"
  /\ phase' = "closed"
  /\ UNCHANGED <<nw, q, calls, taken, running, seen, res, acc>>

Destroyed ==
  /\ phase = "closed"
  /\ q = <<>> /\ taken = {} /\ running = {} /\ calls = {}
  /\ phase' = "gone"
  /\ UNCHANGED <<nw, q, calls, taken, running, seen, res, acc>>

(* invariants *)
Range(f) == {f[i] : i \in DOMAIN f}
Done == {r[1] : r \in res}
AcceptedAccountedFor ==
  acc = Range(q) \cup taken \cup {r[2] : r \in running} \cup Done
NothingTwice ==
  /\ Cardinality(Range(q)) = Len(q)
  /\ Range(q) \cap (taken \cup {r[2] : r \in running} \cup Done) = {}
  /\ taken \cap ({r[2] : r \in running} \cup Done) = {}
  /\ {r[2] : r \in running} \cap Done = {}
BoundedWorkers == Cardinality(taken) + Cardinality(running) <= nw
NothingLost == phase = "gone" => acc = Done
=============================================================================
