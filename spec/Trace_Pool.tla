----------------------------- MODULE Trace_Pool -----------------------------
EXTENDS Pool, TraceBase

Init == PoolInit /\ TraceStart

(* silent steps, taken only when the next event needs them *)
NeedsTake == Is("start") /\ Ev.k \notin taken
NeedsAccept(k) ==
  \/ Is("start") /\ Ev.k \notin taken
  \/ Is("subret") /\ Ev.k = k /\ Ev.ok
  \/ Is("subret") /\ Ev.ok    \* another submission may have to come first
NeedsClose == (Is("subret") /\ ~Ev.ok) \/ Is("late") \/ Is("destroyed")

Silent ==
  /\ Stay
  /\ \/ NeedsTake /\ Take
     \/ \E c \in calls : c[3] = "call" /\ NeedsAccept(c[2]) /\ Accept(c[1], c[2])
     \/ NeedsClose /\ phase = "closing" /\ Close
     \* a submission that is accepted must be so before the pool closes
     \/ NeedsClose /\ phase = "closing" /\ \E c \in calls : c[3] = "call" /\ Accept(c[1], c[2])
     \/ Is("subret") /\ ~Ev.ok /\ \E c \in calls : c[2] = Ev.k /\ c[3] = "call" /\ Refuse(c[1], c[2])

Observed ==
  /\ Advance
  /\ \/ Is("create") /\ Create(Ev.n)
     \/ Is("sub") /\ SubCall(Ev.s, Ev.k)
     \/ Is("subret") /\ SubRet(Ev.s, Ev.k, Ev.ok)
     \/ Is("start") /\ Start(Ev.k, Ev.w)
     \/ Is("await") /\ (\E r \in running : r[2] = Ev.k) /\ UNCHANGED poolVars
     \/ Is("end") /\ End(Ev.k, Ev.w, <<Ev.r, Ev.v>>)
     \/ Is("get") /\ Get(Ev.k, <<Ev.r, Ev.v>>)
     \/ Is("late") /\ phase = "closed" /\ UNCHANGED poolVars
     \/ Is("destroy") /\ Destroy
     \/ Is("destroyed") /\ Ev.live = 1 /\ Destroyed
     \/ Is("done") /\ phase = "gone" /\ UNCHANGED poolVars
     \/ Is("exit") /\ Ev.st = "ok" /\ phase = "gone" /\ UNCHANGED poolVars

Next == Silent \/ Observed
Spec == Init /\ [][Next]_<<poolVars, th, ti>>
=============================================================================
