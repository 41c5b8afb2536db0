---------------------------- MODULE Trace_Shared ----------------------------
EXTENDS Shared, TraceBase

Init == SharedInit /\ TraceStart
(* effects are needed only before a return *)
Silent == Stay /\ Is("ret") /\ Ev.w \in DOMAIN calls /\ calls[Ev.w].st # "done" /\ \E w \in DOMAIN calls : Effect(w)
Observed ==
  /\ Advance
  /\ \/ Is("cells") /\ Cells(Ev.init)
     \/ Is("inv") /\ Call(Ev.w, Ev)
     \/ Is("ret") /\ Return(Ev.w, Ev.v, Ev.got)
     \/ Is("last") /\ Last(Ev.k, Ev.v)
     \/ Is("locks") /\ UNCHANGED sharedVars
     \/ Is("enter") /\ Enter(Ev.w)
     \/ Is("await") /\ Await(Ev.w, Ev.lo, Ev.hi)
     \/ Is("got") /\ Got(Ev.w)
     \/ Is("give") /\ Give(Ev.w, Ev.v, Ev.now)
     \/ Is("leave") /\ Leave(Ev.w)
     \/ Is("rest") /\ Rest(Ev.v)
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED sharedVars
Next == Silent \/ Observed
Spec == Init /\ [][Next]_<<sharedVars, th, ti>>
=============================================================================
