------------------------------- MODULE Expiry -------------------------------
(***************************************************************************)
(* Expiry of messages on a clock. A point in time and a distance are       *)
(* << a, b, n >>: a * 65536 + b seconds and n nanoseconds, b and n never   *)
(* negative.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Carry(a, b, n) == LET c == b + (n \div 1000000000)        \* \div rounds down
                  IN << a + (c \div 65536), c % 65536, n % 1000000000 >>
Plus(x, y)  == Carry(x[1] + y[1], x[2] + y[2], x[3] + y[3])
Minus(x, y) == Carry(x[1] - y[1], x[2] - y[2], x[3] - y[3])
Zero == << 0, 0, 0 >>

\* seconds as << s div 65536, s mod 65536 >>
Leq(a, b)   == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Cap         == << 65535, 65535 >>
\* whole seconds that are reported for a distance
Secs(d)     == IF d[1] < 0 THEN << 0, 0 >> ELSE IF Leq(Cap, d) THEN Cap ELSE << d[1], d[2] >>
AtLeast1(d) == Leq(<< 0, 1 >>, << d[1], d[2] >>)

\* what a message with expiry time at (or << >>: none) says at time now
Answer(at, now) ==
  IF at = << >> THEN [has |-> FALSE, ex |-> FALSE, left |-> << 0, 0 >>, at |-> << >>]
  ELSE LET d == Minus(at, now)
       IN [has |-> TRUE, ex |-> ~AtLeast1(d), left |-> Secs(d), at |-> at]

(* A history of steps: the clock moves, messages get or lose their expiry  *)
(* time, are cloned, encoded or asked. s = [now, at: expiry time of each]. *)
Start == [now |-> Zero, at |-> << << >>, << >>, << >> >>]
After(s, e) ==
  CASE e.t = "tick"  -> [s EXCEPT !.now = Plus(@, e.s)]
    [] e.t = "set"   -> [s EXCEPT !.at[e.o] = e.s]
    [] e.t = "clear" -> [s EXCEPT !.at[e.o] = << >>]
    [] e.t = "new"   -> [s EXCEPT !.at[e.o] = << >>]
    [] e.t = "clone" -> [s EXCEPT !.at[e.p] = s.at[e.o]]
    [] OTHER         -> s

RECURSIVE Run(_, _, _)
\* states before each of the first k steps
Run(s, es, k) == IF k > Len(es) THEN << >> ELSE << s >> \o Run(After(s, es[k]), es, k + 1)
=============================================================================
