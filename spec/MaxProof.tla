----------------------------- MODULE MaxProof ------------------------------
(***************************************************************************)
(* The counter with a maximum (Counters, MCMetrics variant "asis") for any *)
(* number of threads, any number of calls and any amounts, proved with     *)
(* TLAPS. MCMetrics finds the same for a few threads and calls, and plays  *)
(* each of its behaviours to the real code.                                *)
(*                                                                         *)
(* The thread that reached the highest value is on its way to record it    *)
(* until the maximum is that value; the maximum never goes down and is     *)
(* always a value the counter had.                                         *)
(***************************************************************************)
EXTENDS Integers, TLAPS

CONSTANT T             \* threads, any number of them

VARIABLES val, max,    \* the shared memory
          high,        \* highest value there was
          pc, mine, seen
vars == << val, max, high, pc, mine, seen >>

Higher(a, b) == IF a >= b THEN a ELSE b

Init == /\ val = 0 /\ max = 0 /\ high = 0
        /\ pc = [t \in T |-> "out"]
        /\ mine = [t \in T |-> 0]
        /\ seen = [t \in T |-> 0]

Add(t, n) == /\ pc[t] = "out"
             /\ val' = val + n
             /\ high' = Higher(high, val + n)
             /\ mine' = [mine EXCEPT ![t] = val + n]
             /\ pc' = [pc EXCEPT ![t] = "look"]
             /\ UNCHANGED << max, seen >>
Sub(t, n) == /\ pc[t] = "out" /\ n <= val
             /\ val' = val - n
             /\ UNCHANGED << max, high, pc, mine, seen >>
Look(t) == /\ pc[t] = "look"
           /\ IF mine[t] <= max
              THEN pc' = [pc EXCEPT ![t] = "out"] /\ UNCHANGED seen
              ELSE pc' = [pc EXCEPT ![t] = "swap"] /\ seen' = [seen EXCEPT ![t] = max]
           /\ UNCHANGED << val, max, high, mine >>
Swap(t) == /\ pc[t] = "swap"
           /\ IF max = seen[t]
              THEN max' = mine[t] /\ pc' = [pc EXCEPT ![t] = "out"]
              ELSE UNCHANGED max /\ pc' = [pc EXCEPT ![t] = "look"]
           /\ UNCHANGED << val, high, mine, seen >>

Next == \E t \in T : (\E n \in Nat : Add(t, n) \/ Sub(t, n)) \/ Look(t) \/ Swap(t)
Spec == Init /\ [][Next]_vars

Types == /\ val \in Nat /\ max \in Nat /\ high \in Nat
         /\ pc \in [T -> {"out", "look", "swap"}]
         /\ mine \in [T -> Nat] /\ seen \in [T -> Nat]

Inv == /\ Types
       /\ val <= high
       /\ max <= high
       /\ \A t \in T : mine[t] <= high
       /\ \A t \in T : pc[t] = "swap" => seen[t] < mine[t]
       /\ max < high => \E t \in T : pc[t] # "out" /\ mine[t] = high

\* once the calls have returned the maximum is the highest value there was
AtRest == (\A t \in T : pc[t] = "out") => max = high
NeverAbove == max <= high
NeverDown == [][max' >= max]_vars

LEMMA InitInv == Init => Inv
  BY DEF Init, Inv, Types

LEMMA StepInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1>1. ASSUME NEW t \in T, NEW n \in Nat, Add(t, n) PROVE Inv'
  <2>1. high' \in Nat /\ high' >= high /\ val' <= high' /\ mine'[t] = val + n
    BY <1>1 DEF Inv, Types, Add, Higher
  <2>2. CASE high' = high
    <3>1. max' < high' => \E u \in T : pc'[u] # "out" /\ mine'[u] = high'
      BY <1>1, <2>1, <2>2 DEF Inv, Types, Add
    <3> QED BY <1>1, <2>1, <2>2, <3>1 DEF Inv, Types, Add
  <2>3. CASE high' # high
    <3>1. high' = val + n /\ pc'[t] # "out" /\ mine'[t] = high'
      BY <1>1, <2>1, <2>3 DEF Inv, Types, Add, Higher
    <3> QED BY <1>1, <2>1, <2>3, <3>1 DEF Inv, Types, Add
  <2> QED BY <2>2, <2>3
<1>2. ASSUME NEW t \in T, NEW n \in Nat, Sub(t, n) PROVE Inv'
  BY <1>2 DEF Inv, Types, Sub
<1>3. ASSUME NEW t \in T, Look(t) PROVE Inv'
  <2>1. CASE mine[t] <= max
    BY <1>3, <2>1 DEF Inv, Types, Look
  <2>2. CASE ~(mine[t] <= max)
    BY <1>3, <2>2 DEF Inv, Types, Look
  <2> QED BY <2>1, <2>2
<1>4. ASSUME NEW t \in T, Swap(t) PROVE Inv'
  <2>1. CASE max = seen[t]
    BY <1>4, <2>1 DEF Inv, Types, Swap
  <2>2. CASE max # seen[t]
    BY <1>4, <2>2 DEF Inv, Types, Swap
  <2> QED BY <2>1, <2>2
<1>5. CASE UNCHANGED vars
  BY <1>5 DEF Inv, Types, vars
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Next

LEMMA Up == Inv /\ [Next]_vars => max' >= max
  BY DEF Inv, Types, Next, vars, Add, Sub, Look, Swap

THEOREM Always == Spec => []Inv
  BY InitInv, StepInv, PTL DEF Spec

THEOREM Rest == Spec => []AtRest
<1>1. Inv => AtRest BY DEF Inv, Types, AtRest
<1> QED BY <1>1, Always, PTL

THEOREM Above == Spec => []NeverAbove
<1>1. Inv => NeverAbove BY DEF Inv, NeverAbove
<1> QED BY <1>1, Always, PTL

THEOREM Down == Spec => NeverDown
<1>1. Inv /\ [Next]_vars => [max' >= max]_vars BY Up
<1> QED BY <1>1, Always, PTL DEF Spec, NeverDown
=============================================================================
