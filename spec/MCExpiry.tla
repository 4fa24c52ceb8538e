------------------------------ MODULE MCExpiry ------------------------------
(***************************************************************************)
(* All histories of at most N steps of two messages on a clock: the        *)
(* answers of Expiry against a second definition that counts second by     *)
(* second, and the laws of expiry over time.                               *)
(***************************************************************************)
EXTENDS Expiry, TLC, Json

CONSTANTS N, Emit, Ticks, Ats

VARIABLES now, at, hist
vars == << now, at, hist >>

T(h) == Carry(0, h \div 2, (h % 2) * 500000000)   \* half seconds; Ats from -2 s on
\* nanoseconds beside a second: distances just below and just above
Time == {T(h - 4) : h \in Ats} \cup {Minus(T(2), << 0, 0, 1 >>), Plus(T(2), << 0, 0, 1 >>)}
Move == {T(h) : h \in Ticks} \cup {<< 0, 0, 1 >>}

Init == now = Zero /\ at = << << >>, << >> >> /\ hist = << >>

Ans == [o \in 1..2 |-> Answer(at[o], now)]
Step(e) == LET s == After([now |-> now, at |-> at], e)
           IN now' = s.now /\ at' = s.at /\ hist' = Append(hist, e)
Next == /\ Len(hist) < N
        /\ \/ \E d \in Move : Step([t |-> "tick", s |-> d])
           \/ \E o \in 1..2, p \in Time : Step([t |-> "set", o |-> o, s |-> p])
           \/ \E o \in 1..2 : at[o] # << >> /\ Step([t |-> "clear", o |-> o])
           \/ Step([t |-> "clone", o |-> 1, p |-> 2])
           \/ at[2] # << >> /\ Step([t |-> "clone", o |-> 2, p |-> 1])
        /\ Emit /\ Len(hist') = N => PrintT("X " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

\* how often a whole second can be added to the clock without passing the expiry time
RECURSIVE Count(_, _, _)
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] <= y[3])))
Count(p, a, k) == IF k < 100 /\ Before(Plus(p, << 0, 1, 0 >>), a) THEN Count(Plus(p, << 0, 1, 0 >>), a, k + 1) ELSE k
Counted == \A o \in 1..2 : at[o] # << >> =>
             LET k == Count(now, at[o], 0) IN Ans[o].left = << 0, k >> /\ (Ans[o].ex <=> k = 0)

Never  == \A o \in 1..2 : at[o] = << >> => ~Ans[o].ex
Normal == now[2] \in 0..65535 /\ now[3] \in 0..999999999
Apart  == \A o \in 1..2 : at[o] # << >> => Plus(now, Minus(at[o], now)) = at[o]
\* while nothing is set the time left does not grow, and what has expired stays expired
OnlyLess == [][LET e == hist'[Len(hist')] IN
                 e.t = "tick" => \A o \in 1..2 : at[o] # << >> => /\ Leq(Ans'[o].left, Ans[o].left)
                                                                  /\ Ans[o].ex => Ans'[o].ex]_vars
\* a clone answers as its original
Alike == [][LET e == hist'[Len(hist')] IN e.t = "clone" => Ans'[e.p] = Ans[e.o] /\ Ans'[e.o] = Ans[e.o]]_vars
\* a step of one message is none of the other's business
Frame == [][LET e == hist'[Len(hist')] IN e.t \in {"set", "clear"} => Ans'[3 - e.o] = Ans[3 - e.o]]_vars
View == << now, at, Len(hist) >>
=============================================================================
