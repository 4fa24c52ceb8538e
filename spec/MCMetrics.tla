----------------------------- MODULE MCMetrics -----------------------------
(***************************************************************************)
(* Statistics counters step by step: every access to shared memory is a    *)
(* step of its own, calls of several threads interleave in any way. The    *)
(* model implements Counters: whenever a step is one in which its call     *)
(* takes effect, Counters has to allow that effect with the result that    *)
(* the step gives. With Emit every program is printed with every order of  *)
(* steps, and played to the real code.                                     *)
(*                                                                         *)
(* Variant "asis" is the algorithm as designed; the others are mistakes    *)
(* that have to be found: "torn" adds with a read and a write, "once"      *)
(* tries to raise the maximum once only, "plain" raises it without         *)
(* comparing, "early" raises it before the value.                          *)
(***************************************************************************)
EXTENDS Counters, TLC, Json

CONSTANTS Threads,   \* number of threads
          Calls,     \* calls of a thread at most
          Ops,       \* "c": plain and flow counters, "m": with maximum
          Emit, Variant

T == 1..Threads
Call(op, n) == [op |-> op, n |-> Small(n)]

Menu == IF Ops = "c"
        THEN {Call("add", 1), Call("add", 2), Call("diff", 0), Call("get", 0), Call("fdiff", 0), Call("sadd", 1), Call("radd", 3)}
        ELSE {Call("madd", 1), Call("madd", 2), Call("msub", 1), Call("mload", 0)}

\* a thread takes back what it has added
RECURSIVE Balance(_)
Balance(p) == IF p = << >> THEN 0
              ELSE LET c == p[Len(p)] IN Balance(SubSeq(p, 1, Len(p) - 1)) + (IF c.op = "madd" THEN c.n[4] ELSE IF c.op = "msub" THEN 0 - c.n[4] ELSE 0)
Fine(p) == \A k \in 1..Len(p) : Balance(SubSeq(p, 1, k)) >= 0
Programs == {p \in UNION {[1..k -> Menu] : k \in 1..Calls} : Fine(p)}
\* threads are alike
Less2(p, q) == Len(p) >= Len(q)
Assignments == {f \in [T -> Programs] : \A t \in T : t > 1 => Less2(f[t - 1], f[t])}

VARIABLES prog,   \* what each thread does
          at,     \* its next call
          pc,     \* where in that call it is
          loc,    \* what it has read
          res,    \* results of the call so far
          mem, max, snap,
          w,      \* Counters
          v0,     \* of each thread: the value its addition gave
          wrong,  \* Counters does not allow what happened
          ord
vars == << prog, at, pc, loc, res, mem, max, snap, w, v0, wrong, ord >>

Keys == {"c", "s", "r", "m"}
Init == /\ prog \in Assignments
        /\ at = [t \in T |-> 1]
        /\ pc = [t \in T |-> "begin"]
        /\ loc = [t \in T |-> Zero]
        /\ res = [t \in T |-> << >>]
        /\ mem = [k \in Keys |-> Zero] /\ max = Zero
        /\ snap = [t \in T |-> [k \in Keys |-> Zero]]
        /\ w = Start(T)
        /\ v0 = [t \in T |-> Zero]
        /\ wrong = FALSE
        /\ ord = << >>

Busy(t) == at[t] <= Len(prog[t])
C(t) == prog[t][at[t]]

\* the step is one in which the call takes effect, with results r
Takes(t, step, r) ==
  LET ok == {e \in Effects(w, t, C(t).op, C(t).n, step) : Agrees(e[2], r)} IN
  IF ok = {} THEN wrong' = TRUE /\ UNCHANGED << w, v0 >>
  ELSE \E e \in ok : /\ w' = e[1]
                     /\ v0' = [v0 EXCEPT ![t] = e[1].val["m"]]
                     /\ UNCHANGED wrong
Silent == UNCHANGED << w, v0, wrong >>

To(t, p) == pc' = [pc EXCEPT ![t] = p] /\ UNCHANGED at
\* the call ends
EndOf(t) == /\ at' = [at EXCEPT ![t] = @ + 1]
            /\ pc' = [pc EXCEPT ![t] = "begin"]
EndMax(t, w1) == Ended(w1, C(t).op, v0[t])

K(t) == Which(C(t).op)
Amount(t) == IF C(t).op = "msub" THEN Neg(C(t).n) ELSE C(t).n

Step(t) ==
  LET op == C(t).op p == pc[t] IN
  CASE op \in {"add", "sadd", "radd", "msub"} /\ p = "begin" /\ Variant # "torn" ->
         LET v == Plus(mem[K(t)], Amount(t)) IN
         /\ mem' = [mem EXCEPT ![K(t)] = v]
         /\ Takes(t, "change", << v >>) /\ EndOf(t)
         /\ UNCHANGED << loc, res, max, snap >>
    [] op \in {"add", "sadd", "radd", "msub"} /\ p = "begin" ->
         /\ loc' = [loc EXCEPT ![t] = mem[K(t)]] /\ To(t, "write") /\ Silent
         /\ UNCHANGED << res, mem, max, snap >>
    [] p = "write" ->
         LET v == Plus(loc[t], Amount(t)) IN
         /\ mem' = [mem EXCEPT ![K(t)] = v]
         /\ Takes(t, "change", << v >>) /\ EndOf(t)
         /\ UNCHANGED << loc, res, max, snap >>
    [] op = "get" -> Takes(t, "read", << mem[K(t)] >>) /\ EndOf(t) /\ UNCHANGED << loc, res, mem, max, snap >>
    [] op = "diff" ->
         /\ Takes(t, "snap", << Minus(mem[K(t)], snap[t][K(t)]), mem[K(t)] >>)
         /\ snap' = [snap EXCEPT ![t][K(t)] = mem[K(t)]]
         /\ EndOf(t) /\ UNCHANGED << loc, res, mem, max >>
    [] op = "fdiff" /\ p = "begin" ->
         /\ Takes(t, "sent", << Minus(mem["s"], snap[t]["s"]), << >>, mem["s"], << >> >>)
         /\ snap' = [snap EXCEPT ![t]["s"] = mem["s"]]
         /\ To(t, "recv") /\ UNCHANGED << loc, res, mem, max >>
    [] op = "fdiff" ->
         /\ Takes(t, "recv", << << >>, Minus(mem["r"], snap[t]["r"]), << >>, mem["r"] >>)
         /\ snap' = [snap EXCEPT ![t]["r"] = mem["r"]]
         /\ EndOf(t) /\ UNCHANGED << loc, res, mem, max >>
    [] op = "madd" /\ p = "begin" /\ Variant = "early" ->
         LET v == Plus(mem["m"], C(t).n) IN
         /\ max' = Higher(max, v) /\ To(t, "value") /\ Silent
         /\ UNCHANGED << loc, res, mem, snap >>
    [] op = "madd" /\ p = "value" ->
         LET v == Plus(mem["m"], C(t).n) IN
         /\ mem' = [mem EXCEPT !["m"] = v]
         /\ Takes(t, "change", << >>) /\ EndOf(t)
         /\ UNCHANGED << loc, res, max, snap >>
    [] op = "madd" /\ p = "begin" ->
         LET v == Plus(mem["m"], C(t).n) IN
         /\ mem' = [mem EXCEPT !["m"] = v]
         /\ loc' = [loc EXCEPT ![t] = v]
         /\ Takes(t, "change", << >>) /\ To(t, "look")
         /\ UNCHANGED << res, max, snap >>
    [] op = "madd" /\ p = "look" ->
         IF AtMost(loc[t], max)
         THEN /\ w' = EndMax(t, w) /\ EndOf(t)
              /\ UNCHANGED << v0, wrong, loc, res, mem, max, snap >>
         ELSE /\ res' = [res EXCEPT ![t] = << max >>]
              /\ To(t, "swap") /\ Silent
              /\ UNCHANGED << loc, mem, max, snap >>
    [] op = "madd" /\ p = "swap" ->
         IF max = res[t][1] \/ Variant = "plain"
         THEN /\ max' = loc[t]
              /\ w' = EndMax(t, w) /\ EndOf(t)
              /\ UNCHANGED << v0, wrong, loc, res, mem, snap >>
         ELSE IF Variant = "once"
         THEN /\ w' = EndMax(t, w) /\ EndOf(t)
              /\ UNCHANGED << v0, wrong, loc, res, mem, max, snap >>
         ELSE To(t, "look") /\ Silent /\ UNCHANGED << loc, res, mem, max, snap >>
    [] op = "mload" /\ p = "begin" -> Takes(t, "value", << mem["m"], << >> >>) /\ To(t, "max") /\ UNCHANGED << loc, res, mem, max, snap >>
    [] op = "mload" -> Takes(t, "maximum", << << >>, max >>) /\ EndOf(t) /\ UNCHANGED << loc, res, mem, max, snap >>

Ends == \A t \in T : at'[t] > Len(prog[t])
Next == \E t \in T : /\ Busy(t)
                     /\ Step(t)
                     /\ UNCHANGED prog
                     /\ ord' = IF Emit THEN Append(ord, t) ELSE ord
                     /\ (Emit /\ Ends) => PrintT("M " \o ToJson([threads |-> prog, order |-> ord']))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------------------------------------------------ *)
\* every effect is one that Counters allows
Implements == ~wrong
\* the memory is what Counters says
Same == \A k \in Keys : mem[k] = w.val[k]
\* the maximum is one of the values, and not below what it is known to be
MaxHad == max \in w.had /\ AtMost(w.floor, max)
\* nothing going on: it is the highest of all
AllDone == \A t \in T : ~Busy(t)
Quiet == AllDone => \A x \in w.had : AtMost(x, max)
NeverBack == [][AtMost(max, max')]_vars
Done == <>AllDone
=============================================================================
