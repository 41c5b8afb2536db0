---------------------------- MODULE Trace_Holder ----------------------------
EXTENDS Holder, TraceBase

Init == HolderInit /\ TraceStart
Next ==
  /\ Advance
  /\ \/ Is("new") /\ Give(Ev.t, Ev.p)
     \/ Is("set") /\ Give(Ev.t, Ev.p)
     \/ Is("normals") /\ Normals(Ev.q, Ev.n)
     \/ Is("move") /\ Move(Ev.m)
     \/ Is("saving") /\ Saving(Ev.room)
     \/ Is("saved") /\ Saved(Ev.ok)
     \/ Is("drop") /\ Drop
     \/ Is("held") /\ Held(Ev.t, Ev.p, Ev.q, Ev.n)
     \/ Is("spoil") /\ Spoil
     \/ Is("use") /\ Use(Ev.ok, Ev.t, Ev.p, Ev.q, Ev.n)
     \/ Is("time") /\ Time(Ev.t)
     \/ Is("exit") /\ TRUE = Stopped(Ev.st) /\ UNCHANGED holderVars
Spec == Init /\ [][Next]_<<holderVars, th, ti>>
=============================================================================
