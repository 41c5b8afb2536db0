------------------------------- MODULE Shared -------------------------------
(* What threads share: atomic cells, whose operations take effect at once at   *)
(* some moment between call and return, and a mutex with conditions.           *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cell,     \* values of the cells
          calls,    \* thread -> [o |-> operation, st |-> "called", "read" or "done", v |-> result, got |-> value seen]
          holder,   \* thread inside the critical section, -1 for none
          waits,    \* thread -> least and largest number of tokens it waits for
          tokens
sharedVars == <<cell, calls, holder, waits, tokens>>

SharedInit == cell = <<0, 0>> /\ calls = <<>> /\ holder = -1 /\ waits = <<>> /\ tokens = 0

With(f, w, v) == [x \in DOMAIN f \cup {w} |-> IF x = w THEN v ELSE f[x]]
Without(f, w) == [x \in DOMAIN f \ {w} |-> f[x]]

(* ---- cells ---- *)
Cells(init) == cell' = <<init, init>> /\ UNCHANGED <<calls, holder, waits, tokens>>
Call(w, o) ==
  /\ w \notin DOMAIN calls
  /\ calls' = With(calls, w, [o |-> o, st |-> "called", v |-> 0, got |-> 0])
  /\ UNCHANGED <<cell, holder, waits, tokens>>
Did(w, v, got) == calls' = [calls EXCEPT ![w].st = "done", ![w].v = v, ![w].got = got]
Effect(w) ==
  /\ calls[w].st \in {"called", "read"}
  /\ UNCHANGED <<holder, waits, tokens>>
  /\ LET o == calls[w].o
         x == cell[o.k]
         Put(y) == cell' = [cell EXCEPT ![o.k] = y]
     IN CASE o.op = "load" -> Did(w, x, 0) /\ UNCHANGED cell
          [] o.op = "store" -> Did(w, 0, 0) /\ Put(o.a)
          [] o.op = "pre" -> Did(w, x + 1, 0) /\ Put(x + 1)
          [] o.op = "post" -> Did(w, x, 0) /\ Put(x + 1)
          [] o.op = "cas" -> IF x = o.a THEN Did(w, 1, o.a) /\ Put(o.b) ELSE Did(w, 0, x) /\ UNCHANGED cell
          \* a copy reads one cell, and writes the other later
          [] o.op = "copy" /\ calls[w].st = "called" ->
               calls' = [calls EXCEPT ![w].st = "read", ![w].got = cell[o.j]] /\ UNCHANGED cell
          [] o.op = "copy" /\ calls[w].st = "read" -> Did(w, 0, 0) /\ Put(calls[w].got)
Return(w, v, got) ==
  /\ w \in DOMAIN calls
  /\ calls[w].st = "done"
  /\ calls[w].o.op \in {"load", "pre", "post", "cas"} => v = calls[w].v
  /\ calls[w].o.op = "cas" => got = calls[w].got
  /\ calls' = Without(calls, w)
  /\ UNCHANGED <<cell, holder, waits, tokens>>
Last(k, v) == calls = <<>> /\ cell[k] = v /\ UNCHANGED sharedVars

(* ---- the mutex ---- *)
Enter(w) == holder = -1 /\ holder' = w /\ UNCHANGED <<cell, calls, waits, tokens>>
Await(w, lo, hi) == holder = w /\ holder' = -1 /\ waits' = With(waits, w, <<lo, hi>>) /\ UNCHANGED <<cell, calls, tokens>>
Got(w) ==
  /\ holder = -1 /\ w \in DOMAIN waits /\ tokens >= waits[w][1] /\ tokens <= waits[w][2]
  /\ holder' = w /\ waits' = Without(waits, w)
  /\ UNCHANGED <<cell, calls, tokens>>
Give(w, n, now) ==
  /\ holder = w /\ tokens' = tokens + n /\ now = tokens'
  /\ UNCHANGED <<cell, calls, holder, waits>>
Leave(w) == holder = w /\ holder' = -1 /\ UNCHANGED <<cell, calls, waits, tokens>>
Rest(n) == holder = -1 /\ waits = <<>> /\ tokens = n /\ UNCHANGED sharedVars
=============================================================================
