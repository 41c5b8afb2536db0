------------------------------- MODULE Times -------------------------------
(* Time stamps as the digits of their nanosecond value:                       *)
(* <<seconds \div 65536, seconds % 65536, milli, micro, nano>>.               *)
EXTENDS Integers, Sequences

Base == <<65536, 65536, 1000, 1000, 1000>>
Zero5 == <<0, 0, 0, 0, 0>>
TimeOk(a) == \A k \in 1..5 : a[k] \in 0..(Base[k] - 1)

RECURSIVE Less(_, _, _)
Less(a, b, k) == IF k > 5 THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE Less(a, b, k + 1)
Lt(a, b) == Less(a, b, 1)

(* digitwise sum and difference with carry, from the last digit on *)
RECURSIVE Carry(_, _, _, _)
Carry(f, k, c, r) ==   \* f: unnormalised digits
  IF k = 0 THEN r
  ELSE LET v == f[k] + c IN Carry(f, k - 1, v \div Base[k], [r EXCEPT ![k] = v % Base[k]])
Plus(a, b) == Carry([k \in 1..5 |-> a[k] + b[k]], 5, 0, Zero5)
Minus(a, b) == IF Lt(a, b) THEN Zero5 ELSE Carry([k \in 1..5 |-> a[k] - b[k]], 5, 0, Zero5)

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Quot(_, _, _, _, _)
Quot(a, d, k, rem, r) ==
  IF k > 5 THEN r
  ELSE LET v == rem * Base[k] + a[k] IN Quot(a, d, k + 1, v % d, [r EXCEPT ![k] = v \div d])
Over(a, d) == IF d = 0 THEN a ELSE Quot(a, Abs(d), 1, 0, Zero5)

Gap(a, b) == IF Lt(a, b) THEN Minus(b, a) ELSE Minus(a, b)
(* equal up to n nanoseconds (n < 1000) or n microseconds *)
WithinNano(a, b, n) == LET g == Gap(a, b) IN g[1] = 0 /\ g[2] = 0 /\ g[3] = 0 /\ g[4] = 0 /\ g[5] <= n
WithinMicro(a, b, n) == LET g == Gap(a, b) IN g[1] = 0 /\ g[2] = 0 /\ g[3] = 0 /\ g[4] < n

Compare(a, b, eq, ne, lt, le, gt, ge) ==
  /\ lt = Lt(a, b) /\ gt = Lt(b, a) /\ le = ~Lt(b, a) /\ ge = ~Lt(a, b)
  /\ ne = ~eq /\ (a = b => eq)
  /\ eq => WithinNano(a, b, 1)      \* neighbouring nanoseconds may count as equal
Bracket(v, x, i, j) ==
  /\ i >= 0 /\ j = i + 1 /\ j <= Len(v) - 1
  /\ IF x < v[1] THEN i = 0 ELSE v[i + 1] <= x
  /\ IF x > v[Len(v)] THEN j = Len(v) - 1 ELSE x <= v[j + 1]
=============================================================================
