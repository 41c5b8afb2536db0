--------------------------- MODULE Trace_Filters ---------------------------
EXTENDS Filters, TraceBase
VARIABLE cfg
Init == TraceStart /\ cfg = <<>>

One ==
  /\ Ev.kept_input /\ Ev.ot = Ev.t
  /\ LET k == cfg.k IN
     CASE k = "VoxelGrid" -> Averages(cfg, Ev.in, Ev.out)
       [] k \in {"RangeImage", "GroundRemoval2"} ->
            LET keep == IF k = "RangeImage"
                        THEN {i \in 1..Ev.n : Ev.pixel[i] # <<-1, -1>> /\ \A j \in 1..(i-1) : Ev.pixel[j] # Ev.pixel[i]}
                        ELSE {Ev.posts[i] : i \in DOMAIN Ev.posts}
            IN Partition(Ev.inl, Ev.outl, keep, Ev.n) /\ Ev.same /\ Ev.ids = [i \in DOMAIN Ev.inl |-> Ev.inl[i] + 1]
       [] k \in {"RandomSampler", "StatisticRemoval"} ->
            LET keep == IndexSet(Ev.inl) IN
            /\ keep \subseteq 1..Len(Ev.in) /\ Partition(Ev.inl, Ev.outl, keep, Len(Ev.in)) /\ Ev.out = Sub(Ev.in, keep)
            /\ k = "RandomSampler" => SampleOk(cfg, Len(Ev.in), Len(Ev.out))
       [] OTHER ->
            LET keep == Keeps(cfg, Ev.in) IN
            Partition(Ev.inl, Ev.outl, keep, Len(Ev.in)) /\ Ev.out = Sub(Ev.in, keep)

Chain ==
  /\ Ev.kept_input /\ Ev.ot = Ev.t
  /\ LET n == Len(cfg)
         vox == n > 0 /\ cfg[n].k = "VoxelGrid"
         s == Through(IF vox THEN SubSeq(cfg, 1, n - 1) ELSE cfg, Ev.in)
     IN IF vox THEN Averages(cfg[n], s, Ev.out) ELSE Ev.out = s

Next ==
  /\ Advance
  /\ \/ Is("setup") /\ cfg' = Ev.cfg
     \/ Is("chain") /\ cfg' = Ev.cfg
     \/ Is("filter") /\ One /\ UNCHANGED cfg
     \/ Is("pass") /\ Chain /\ UNCHANGED cfg
     \/ /\ Is("big") /\ Ev.in + Ev.out = Ev.n /\ Ev.kept = Ev.in /\ UNCHANGED cfg
     \/ Is("unknown_param") /\ Ev.refused /\ UNCHANGED cfg
     \/ Is("exit") /\ Ev.st = "ok" /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<<cfg, th, ti>>
=============================================================================
