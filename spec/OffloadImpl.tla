---------------------------- MODULE OffloadImpl ----------------------------
(* The cloud of one submap as implemented: users get it under a read lock,     *)
(* which loads it when it was dropped; a matcher stores it and then announces  *)
(* that it is stored; a sweeper drops it under the write lock after it was not *)
(* used for a while and when nobody holds it.                                  *)
(*   Variant "ok" is the code; the others are mistakes the model must reject:  *)
(*   "nocount"   the sweeper does not look whether the cloud is held           *)
(*   "countfirst" it looks before it has the write lock                        *)
(*   "nolock"    it does not wait for users inside the read lock               *)
(*   "flagfirst" the cloud is announced as stored before it is                 *)
(*   "noload"    a user does not load the cloud                                *)
EXTENDS Naturals, FiniteSets

CONSTANTS Users, Rounds, Delay, Variant

VARIABLES memory,    \* the cloud is in memory
          stored,    \* it is on disk
          told,      \* it was announced as stored
          idle,      \* time since the last use, at most Delay + 1
          upc, left, \* users: program counter, uses to come
          held,      \* users that hold the cloud
          inside,    \* users inside the read lock
          mpc,       \* matcher
          spc, free, \* sweeper; free = what it saw of the holders
          failed     \* a load found no file
vars == <<memory, stored, told, idle, upc, left, held, inside, mpc, spc, free, failed>>

Init ==
  /\ memory = TRUE /\ stored = FALSE /\ told = FALSE /\ idle = 0
  /\ upc = [u \in Users |-> "out"] /\ left = [u \in Users |-> Rounds]
  /\ held = {} /\ inside = {} /\ mpc = "start" /\ spc = "look" /\ free = FALSE /\ failed = FALSE

Writing == spc \in {"count", "drop"} /\ Variant # "nolock"
Go(u, p) == upc' = [upc EXCEPT ![u] = p]
Enter(u) == upc[u] = "out" /\ left[u] > 0 /\ ~Writing /\ Go(u, "reset") /\ inside' = inside \cup {u}
  /\ UNCHANGED <<memory, stored, told, idle, left, held, mpc, spc, free, failed>>
Reset(u) == upc[u] = "reset" /\ idle' = 0 /\ Go(u, "load")
  /\ UNCHANGED <<memory, stored, told, left, held, inside, mpc, spc, free, failed>>
Load(u) == upc[u] = "load" /\ Go(u, "copy")
  /\ (IF memory \/ Variant = "noload" THEN UNCHANGED <<memory, failed>>
      ELSE memory' = stored /\ failed' = (failed \/ ~stored))
  /\ UNCHANGED <<stored, told, idle, left, held, inside, mpc, spc, free>>
Copy(u) == upc[u] = "copy" /\ held' = held \cup {u} /\ Go(u, "leave")
  /\ UNCHANGED <<memory, stored, told, idle, left, inside, mpc, spc, free, failed>>
Leave(u) == upc[u] = "leave" /\ inside' = inside \ {u} /\ Go(u, "use")
  /\ UNCHANGED <<memory, stored, told, idle, left, held, mpc, spc, free, failed>>
Use(u) == upc[u] = "use" /\ Go(u, "out") /\ held' = held \ {u} /\ left' = [left EXCEPT ![u] = @ - 1]
  /\ UNCHANGED <<memory, stored, told, idle, inside, mpc, spc, free, failed>>

(* the matcher is the last to use the cloud before it stores it *)
Match == /\ \/ mpc = "start" /\ mpc' = (IF Variant = "flagfirst" THEN "tell" ELSE "store") /\ UNCHANGED <<stored, told>>
            \/ mpc = "store" /\ stored' = TRUE /\ mpc' = (IF Variant = "flagfirst" THEN "gone" ELSE "tell") /\ UNCHANGED told
            \/ mpc = "tell" /\ told' = TRUE /\ mpc' = (IF Variant = "flagfirst" THEN "store" ELSE "gone") /\ UNCHANGED stored
  /\ UNCHANGED <<memory, idle, upc, left, held, inside, spc, free, failed>>

Sweep ==
  /\ UNCHANGED <<stored, told, upc, left, held, inside, mpc, failed>>
  /\ \/ /\ spc = "look" /\ spc' = (IF told THEN "add" ELSE "look") /\ UNCHANGED <<memory, idle, free>>
     \/ /\ spc = "add" /\ idle' = (IF idle > Delay THEN idle ELSE idle + 1) /\ spc' = "late" /\ UNCHANGED <<memory, free>>
     \/ /\ spc = "late" /\ UNCHANGED <<memory, idle, free>>
        /\ spc' = (IF idle > Delay THEN (IF Variant = "countfirst" THEN "before" ELSE "lock") ELSE "look")
     \/ /\ spc = "before" /\ free' = (held = {}) /\ spc' = "lock" /\ UNCHANGED <<memory, idle>>
     \/ /\ spc = "lock" /\ (inside = {} \/ Variant = "nolock") /\ UNCHANGED <<memory, idle, free>>
        /\ spc' = (IF Variant = "countfirst" THEN "drop" ELSE "count")
     \/ /\ spc = "count" /\ free' = (held = {} \/ Variant = "nocount") /\ spc' = "drop" /\ UNCHANGED <<memory, idle>>
     \/ /\ spc = "drop" /\ memory' = (IF free THEN FALSE ELSE memory) /\ spc' = "look" /\ free' = FALSE /\ UNCHANGED idle

Next == Match \/ Sweep \/ \E u \in Users : Enter(u) \/ Reset(u) \/ Load(u) \/ Copy(u) \/ Leave(u) \/ Use(u)
Spec == Init /\ [][Next]_vars /\ WF_vars(Match) /\ WF_vars(Sweep)
  /\ \A u \in Users : SF_vars(Enter(u)) /\ WF_vars(Reset(u) \/ Load(u) \/ Copy(u) \/ Leave(u) \/ Use(u))

(* who holds the cloud has its points *)
HeldInMemory == held # {} => memory
NeverLost == memory \/ stored
LoadsFindFile == ~failed
AllServed == <>(\A u \in Users : left[u] = 0)
Dropped == <>[](\A u \in Users : left[u] = 0) => []<>(~memory)
=============================================================================
