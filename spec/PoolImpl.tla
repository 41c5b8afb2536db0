------------------------------ MODULE PoolImpl ------------------------------
(* The pool as implemented: a queue under one mutex and one condition variable *)
(* with lost-signal semantics.  Refines Pool.  One action per critical section; *)
(* a notification wakes one (or all) of the threads waiting at that moment.     *)
(*   Variant "ok" is the code; the others are mistakes the model must reject:   *)
(*   "nonotify" destruction does not notify, "dropqueue" workers leave as soon  *)
(*   as the pool is stopped, "noloop" a woken worker does not look again,       *)
(*   "lazy" a submission notifies only when the queue was empty before.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Workers, Submitters, Tasks, Plan, Nested, Needs, WaitAll, Variant
(* Plan[s]: sequence of tasks submitter s offers; Nested[k]: task that task k offers or 0; Needs[k]: *)
(* task whose start task k waits for or 0; WaitAll: the owner destroys the pool *)
(* only after every task has ended *)

VARIABLES queue, stop, wpc, wtask, spc, sidx, dpc, accepted, refused, started, finished, sleeping
vars == <<queue, stop, wpc, wtask, spc, sidx, dpc, accepted, refused, started, finished, sleeping>>

Init ==
  /\ queue = <<>> /\ stop = FALSE
  /\ wpc = [w \in Workers |-> "look"] /\ wtask = [w \in Workers |-> 0]
  /\ spc = [s \in Submitters |-> "idle"] /\ sidx = [s \in Submitters |-> 1]
  /\ dpc = "none"
  /\ accepted = <<>> /\ refused = {} /\ started = <<>> /\ finished = {}
  /\ sleeping = {}

(* worker: evaluate the predicate under the lock *)
Look(w) ==
  /\ wpc[w] = "look"
  /\ IF stop /\ (queue = <<>> \/ Variant = "dropqueue")
     THEN /\ wpc' = [wpc EXCEPT ![w] = "exit"]
          /\ UNCHANGED <<queue, wtask, sleeping>>
     ELSE IF queue # <<>>
     THEN /\ wpc' = [wpc EXCEPT ![w] = "have"]
          /\ wtask' = [wtask EXCEPT ![w] = Head(queue)]
          /\ queue' = Tail(queue)
          /\ UNCHANGED sleeping
     ELSE /\ wpc' = [wpc EXCEPT ![w] = "sleep"]
          /\ sleeping' = sleeping \cup {w}
          /\ UNCHANGED <<queue, wtask>>
  /\ UNCHANGED <<stop, spc, sidx, dpc, accepted, refused, started, finished>>

Wake(w) ==  \* notified
  /\ wpc[w] = "sleep" /\ w \notin sleeping
  /\ wpc' = [wpc EXCEPT ![w] = IF Variant = "noloop" /\ queue = <<>> THEN "exit" ELSE "look"]
  /\ UNCHANGED <<queue, stop, wtask, spc, sidx, dpc, accepted, refused, started, finished, sleeping>>

Begin(w) ==
  /\ wpc[w] = "have"
  /\ wpc' = [wpc EXCEPT ![w] = IF Nested[wtask[w]] # 0 THEN "nest" ELSE "run"]
  /\ started' = Append(started, wtask[w])
  /\ UNCHANGED <<queue, stop, wtask, spc, sidx, dpc, accepted, refused, finished, sleeping>>

NotifyOne(S) == IF S = {} THEN {S} ELSE {S \ {x} : x \in S}

Nest(w) ==  \* the task offers another one
  /\ wpc[w] = "nest"
  /\ wpc' = [wpc EXCEPT ![w] = "run"]
  /\ IF stop
     THEN refused' = refused \cup {Nested[wtask[w]]} /\ UNCHANGED <<queue, accepted, sleeping>>
     ELSE /\ queue' = Append(queue, Nested[wtask[w]])
          /\ accepted' = Append(accepted, Nested[wtask[w]])
          /\ IF Variant = "lazy" /\ queue # <<>> THEN UNCHANGED sleeping
             ELSE sleeping' \in NotifyOne(sleeping)
          /\ UNCHANGED refused
  /\ UNCHANGED <<stop, wtask, spc, sidx, dpc, started, finished>>

Finish(w) ==
  /\ wpc[w] = "run"
  /\ Needs[wtask[w]] # 0 => \E i \in DOMAIN started : started[i] = Needs[wtask[w]]
  /\ wpc' = [wpc EXCEPT ![w] = "look"]
  /\ finished' = finished \cup {wtask[w]}
  /\ wtask' = [wtask EXCEPT ![w] = 0]
  /\ UNCHANGED <<queue, stop, spc, sidx, dpc, accepted, refused, started, sleeping>>

Push(s) ==
  /\ spc[s] = "idle" /\ sidx[s] <= Len(Plan[s])
  /\ LET k == Plan[s][sidx[s]] IN
     IF stop THEN /\ refused' = refused \cup {k}
                  /\ sidx' = [sidx EXCEPT ![s] = @ + 1]
                  /\ UNCHANGED <<queue, accepted, spc>>
     ELSE /\ queue' = Append(queue, k) /\ accepted' = Append(accepted, k)
          /\ IF Variant = "lazy" /\ queue # <<>>
             THEN sidx' = [sidx EXCEPT ![s] = @ + 1] /\ UNCHANGED spc
             ELSE spc' = [spc EXCEPT ![s] = "notify"] /\ UNCHANGED sidx
          /\ UNCHANGED refused
  /\ UNCHANGED <<stop, wpc, wtask, dpc, started, finished, sleeping>>

Notify(s) ==
  /\ spc[s] = "notify"
  /\ sleeping' \in NotifyOne(sleeping)
  /\ spc' = [spc EXCEPT ![s] = "idle"]
  /\ sidx' = [sidx EXCEPT ![s] = @ + 1]
  /\ UNCHANGED <<queue, stop, wpc, wtask, dpc, accepted, refused, started, finished>>

(* destruction starts after the submitters are done (nested tasks may still come) *)
SetStop ==
  /\ dpc = "none" /\ \A s \in Submitters : spc[s] = "idle" /\ sidx[s] > Len(Plan[s])
  /\ WaitAll => finished = {accepted[i] : i \in DOMAIN accepted}
  /\ dpc' = "notify" /\ stop' = TRUE
  /\ UNCHANGED <<queue, wpc, wtask, spc, sidx, accepted, refused, started, finished, sleeping>>
NotifyAll ==
  /\ dpc = "notify"
  /\ dpc' = "join"
  /\ sleeping' = IF Variant = "nonotify" THEN sleeping ELSE {}
  /\ UNCHANGED <<queue, stop, wpc, wtask, spc, sidx, accepted, refused, started, finished>>
Join ==
  /\ dpc = "join" /\ \A w \in Workers : wpc[w] = "exit"
  /\ dpc' = "gone"
  /\ UNCHANGED <<queue, stop, wpc, wtask, spc, sidx, accepted, refused, started, finished, sleeping>>

Next ==
  \/ \E w \in Workers : Look(w) \/ Wake(w) \/ Begin(w) \/ Nest(w) \/ Finish(w)
  \/ \E s \in Submitters : Push(s) \/ Notify(s)
  \/ SetStop \/ NotifyAll \/ Join

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Rng(f) == {f[i] : i \in DOMAIN f}
AllDone == dpc = "gone"
Terminates == <>AllDone
OnceEach == \A i, j \in DOMAIN started : i # j => started[i] # started[j]
NoneLost == AllDone => Rng(accepted) = finished /\ Rng(accepted) \cap refused = {}
(* a task is started only after all but (workers-1) older accepted ones were taken *)
InOrder == \A w \in Workers : wtask[w] # 0 =>
  \A i \in DOMAIN accepted : \A j \in DOMAIN accepted :
     (accepted[j] = wtask[w] /\ i < j) => accepted[i] \notin Rng(queue)

(* refinement *)
Abs == INSTANCE Pool WITH
  nw <- Cardinality(Workers), q <- queue,
  calls <- {<<s, Plan[s][sidx[s]], "yes">> : s \in {x \in Submitters : spc[x] = "notify"}},
  taken <- {wtask[w] : w \in {x \in Workers : wpc[x] = "have"}},
  running <- {<<w, wtask[w]>> : w \in {x \in Workers : wpc[x] \in {"run", "nest"}}},
  seen <- {w \in Workers : TRUE}, res <- {<<k, "o">> : k \in finished},
  acc <- Rng(accepted), phase <- CASE dpc = "none" -> "up" [] dpc = "gone" -> "gone" [] OTHER -> "closed"
AbsInv == Abs!AcceptedAccountedFor /\ Abs!NothingTwice /\ Abs!BoundedWorkers /\ Abs!NothingLost
=============================================================================
