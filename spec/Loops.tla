------------------------------- MODULE Loops -------------------------------
(* Loop detection over a sequence of submaps.  Positions are triples.          *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES set,     \* settings
          frames,  \* the submaps so far: [at, group]
          window,  \* <<>> or <<from, to>>: only submaps from..to-1 are searched
          status, count
lvars == <<set, frames, window, status, count>>

NoLoop == 0
Trying == 1
Entering == 2
Continuous == 3
Leaving == 4

Begin == set = <<>> /\ frames = <<>> /\ window = <<>> /\ status = NoLoop /\ count = 0

Sq(x) == x * x
Abs(x) == IF x < 0 THEN -x ELSE x
Dist2(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2])
Min2(x, y) == IF x < y THEN x ELSE y

(* the older submaps a new one (already last in fs) may be linked to; numbered from 0 *)
Near(fs) ==
  LET last == Len(fs) - 1
      c == fs[Len(fs)]
      lo == IF window = <<>> THEN 0 ELSE Min2(window[1], last)
      hi == IF window = <<>> THEN last - set.ignore ELSE Min2(window[2], last)
  IN {i \in lo..(hi - 1) :
        /\ Dist2(fs[i + 1].at, c.at) <= Sq(set.reach)
        /\ Abs(fs[i + 1].at[3] - c.at[3]) <= set.height}
Admissible(fs) == {i \in Near(fs) : (~set.desc) \/ fs[i + 1].group = fs[Len(fs)].group}

(* the state after a submap with or without candidates *)
After(hit) ==
  LET tried == IF status = NoLoop THEN 1 ELSE count + 1 IN
  CASE status \in {NoLoop, Trying} ->
         IF hit THEN [s |-> IF tried >= set.tries THEN Entering ELSE Trying, c |-> tried]
                ELSE [s |-> NoLoop, c |-> IF status = NoLoop THEN 0 ELSE count]
    [] status = Entering -> [s |-> IF hit THEN Continuous ELSE Trying, c |-> count]
    [] status = Continuous -> IF hit THEN [s |-> Continuous, c |-> count] ELSE [s |-> Leaving, c |-> 0]
    [] OTHER -> [s |-> IF hit THEN Trying ELSE NoLoop, c |-> count]

Settings(s) == set = <<>> /\ set' = s /\ UNCHANGED <<frames, window, status, count>>
Window(a, b) == window' = <<a, b>> /\ UNCHANGED <<set, frames, status, count>>
Move(k, at) == frames' = [frames EXCEPT ![k + 1].at = at] /\ UNCHANGED <<set, window, status, count>>

Good(calls) == {c \in calls : c.score > set.accept}
Agree(edges) == \A a, b \in edges : Abs(a.shift - b.shift) <= 25 /\ Abs(a.turn - b.turn) <= 20

(* Adding a submap: the matches tried, the edges reported, and whether the loop is closed *)
Outcome(fs, detect, calls, edges, closed) ==
  LET me == Len(fs) - 1
      skip == (~detect) \/ Len(fs) <= set.ignore
      ok == IF skip THEN {} ELSE Admissible(fs)
      near == IF skip THEN {} ELSE Near(fs)
      next == After(ok # {})
      best == {i \in near : \A j \in near : Dist2(fs[i + 1].at, fs[me + 1].at) <= Dist2(fs[j + 1].at, fs[me + 1].at)}
      tried == {c.to : c \in calls}
  IN IF skip \/ next.s # Continuous THEN calls = {} /\ edges = {} /\ ~closed
     ELSE /\ \A c \in calls : c.from = me
          /\ (~set.desc => tried \subseteq ok)
          /\ tried # {} /\ Cardinality(tried) <= set.nearest + 1
          /\ (Cardinality(ok) <= set.nearest => ok \subseteq tried)
          /\ tried \subseteq near
          /\ Cardinality(tried \ ok) <= 1
          \* the nearest one is tried if it is really near
          /\ (25 * Dist2(fs[(CHOOSE i \in best : TRUE) + 1].at, fs[me + 1].at) < 4 * Sq(set.reach)
               => \E i \in best : i \in tried)
          /\ edges = {[from |-> c.from, to |-> c.to, shift |-> c.shift, turn |-> c.turn] : c \in Good(calls)}
          /\ closed = (Cardinality(edges) >= 2 /\ Agree(edges))

Add(at, group, detect, calls, edges, closed) ==
  LET fs == Append(frames, [at |-> at, group |-> group])
      skip == (~detect) \/ Len(fs) <= set.ignore
      n == After(Admissible(fs) # {})
  IN /\ TRUE = Outcome(fs, detect, calls, edges, closed)
     /\ frames' = fs
     /\ status' = IF skip THEN status ELSE n.s
     /\ count' = IF skip THEN count ELSE n.c
     /\ UNCHANGED <<set, window>>
=============================================================================
