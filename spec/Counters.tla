------------------------------ MODULE Counters ------------------------------
(***************************************************************************)
(* Statistics counters as their users see them: plain counters, the sent   *)
(* and received halves of flow counters, and counters with a recorded      *)
(* maximum. Values are 64 bit, as four 16 bit digits.                      *)
(*                                                                         *)
(* A call begins, takes effect in one or more steps, and ends. An addition *)
(* takes effect at once; a difference snapshot reads each half at some     *)
(* moment; reading a maximum counter reads the value and the maximum at    *)
(* some moments. The maximum may lag behind as long as additions are going *)
(* on, but never goes back, never shows a value the counter did not have,  *)
(* and has caught up with every addition that has ended.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Zero == << 0, 0, 0, 0 >>
Small(n) == << 0, 0, n \div 65536, n % 65536 >>

Plus(a, b) ==
  LET s4 == a[4] + b[4]
      s3 == a[3] + b[3] + s4 \div 65536
      s2 == a[2] + b[2] + s3 \div 65536
      s1 == a[1] + b[1] + s2 \div 65536
  IN << s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536 >>

Neg(a) == Plus(<< 65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4] >>, Small(1))
Minus(a, b) == Plus(a, Neg(b))

Less(a, b) ==
  \/ a[1] < b[1]
  \/ a[1] = b[1] /\ a[2] < b[2]
  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
AtMost(a, b) == a = b \/ Less(a, b)
Higher(a, b) == IF Less(a, b) THEN b ELSE a

\* c plain, s sent, r received, m with maximum, x source of LoadStore
Start(T) ==
  [val   |-> [k \in {"c", "s", "r", "m", "x"} |-> Zero],
   had   |-> {Zero},           \* values the counter with maximum has had
   floor |-> Zero,             \* its maximum is known to be at least this
   snap  |-> [k \in {"c", "s", "r", "x"} |-> [t \in T |-> Zero]]]

\* the steps in which a call takes effect
Steps(op) ==
  CASE op \in {"add", "sadd", "radd", "madd", "msub", "lset"} -> {"change"}
    [] op \in {"get", "load", "sget", "rget", "mget"}  -> {"read"}
    [] op \in {"diff", "ls"}                           -> {"snap"}
    [] op = "fdiff"                                    -> {"sent", "recv"}
    [] op = "mload"                                    -> {"value", "maximum"}

Which(op) ==
  CASE op \in {"add", "get", "load", "diff"} -> "c"
    [] op \in {"sadd", "sget"} -> "s"
    [] op \in {"radd", "rget"} -> "r"
    [] op \in {"madd", "msub", "mget", "mload"} -> "m"
    [] op \in {"ls", "lset"} -> "x"
    [] OTHER -> "c"

Snap(w, k, t) == [w EXCEPT !.snap[k][t] = w.val[k]]

\* Effects(w, t, op, n, step): << new state, results by position >>; a set, as a maximum may lag
Effects(w, t, op, n, step) ==
  LET k == Which(op) IN
  CASE step = "change" /\ op = "lset" -> {<< [w EXCEPT !.val["x"] = n], << >> >>}
    [] step = "change" /\ k # "m" -> LET v == Plus(w.val[k], n) IN {<< [w EXCEPT !.val[k] = v], << v >> >>}
    [] step = "change" -> LET v == IF op = "madd" THEN Plus(w.val["m"], n) ELSE Minus(w.val["m"], n) IN
                          {<< [w EXCEPT !.val["m"] = v, !.had = @ \cup {v}], << >> >>}
    [] step = "read"   -> {<< w, << w.val[k] >> >>}
    [] step = "snap"   -> {<< Snap(w, k, t), << Minus(w.val[k], w.snap[k][t]), w.val[k] >> >>}
    [] step = "sent"   -> {<< Snap(w, "s", t), << Minus(w.val["s"], w.snap["s"][t]), << >>, w.val["s"], << >> >> >>}
    [] step = "recv"   -> {<< Snap(w, "r", t), << << >>, Minus(w.val["r"], w.snap["r"][t]), << >>, w.val["r"] >> >>}
    [] step = "value"  -> {<< w, << w.val["m"], << >> >> >>}
    [] step = "maximum" -> {<< [w EXCEPT !.floor = x], << << >>, x >> >> : x \in {h \in w.had : AtMost(w.floor, h)}}

\* res agrees with the results r of the whole call where it says something
Agrees(res, r) == \A k \in 1..Len(res) : res[k] = << >> \/ (k <= Len(r) /\ res[k] = r[k])

\* an addition that has ended is in the maximum; v: the value it gave
Ended(w, op, v) == IF op = "madd" THEN [w EXCEPT !.floor = Higher(@, v)] ELSE w
=============================================================================
