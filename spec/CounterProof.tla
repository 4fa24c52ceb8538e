---------------------------- MODULE CounterProof ----------------------------
(***************************************************************************)
(* The counters without a maximum (Counters, MCMetrics) for any number of  *)
(* threads and observers, any number of calls and any amounts, in 64 bits, *)
(* proved with TLAPS. Each observer takes differences against a snapshot   *)
(* of its own. Two counters side by side, as a flow counter has them.      *)
(***************************************************************************)
EXTENDS Integers, TLAPS

CONSTANT K            \* observers, any number of them
M == 4294967296 * 4294967296

VARIABLES c,          \* the counters, as memory has them
          tot,        \* what was added to each, not cut to 64 bits
          snap,       \* of each observer: its snapshot of each
          at,         \* the total when that snapshot was taken
          rep,        \* sum of the differences the observer was given
          fine        \* less than 2^64 was added between any two of its snapshots
vars == << c, tot, snap, at, rep, fine >>
W == {"sent", "recv"}

Init == /\ c = [x \in W |-> 0]
        /\ tot = [x \in W |-> 0]
        /\ snap = [k \in K |-> [x \in W |-> 0]]
        /\ at = [k \in K |-> [x \in W |-> 0]]
        /\ rep = [k \in K |-> [x \in W |-> 0]]
        /\ fine = [k \in K |-> [x \in W |-> TRUE]]

Add(x, n) == /\ c' = [c EXCEPT ![x] = (c[x] + n) % M]
             /\ tot' = [tot EXCEPT ![x] = tot[x] + n]
             /\ UNCHANGED << snap, at, rep, fine >>
Diff(k, x) == /\ rep' = [rep EXCEPT ![k][x] = rep[k][x] + ((c[x] - snap[k][x]) % M)]
              /\ snap' = [snap EXCEPT ![k][x] = c[x]]
              /\ at' = [at EXCEPT ![k][x] = tot[x]]
              /\ fine' = [fine EXCEPT ![k][x] = fine[k][x] /\ tot[x] - at[k][x] < M]
              /\ UNCHANGED << c, tot >>
Next == \E x \in W : (\E n \in 0..(M - 1) : Add(x, n)) \/ (\E k \in K : Diff(k, x))
Spec == Init /\ [][Next]_vars

Types == /\ c \in [W -> 0..(M - 1)] /\ tot \in [W -> Nat]
         /\ snap \in [K -> [W -> 0..(M - 1)]] /\ at \in [K -> [W -> Nat]]
         /\ rep \in [K -> [W -> Nat]] /\ fine \in [K -> [W -> BOOLEAN]]

Inv == /\ Types
       /\ \A x \in W : c[x] = tot[x] % M
       /\ \A k \in K : \A x \in W : /\ snap[k][x] = at[k][x] % M
                                    /\ at[k][x] <= tot[x]
                                    /\ rep[k][x] % M = snap[k][x]
                                    /\ fine[k][x] => rep[k][x] = at[k][x]

\* nothing added is lost
NoneLost == \A x \in W : c[x] = tot[x] % M
\* the differences add up to what was counted: nothing twice, nothing missed
AddUp == \A k \in K : \A x \in W : fine[k][x] => rep[k][x] = at[k][x]

LEMMA Cut == ASSUME NEW a \in Nat, NEW n \in Nat PROVE ((a % M) + n) % M = (a + n) % M
  BY DEF M
LEMMA Rest == ASSUME NEW a \in Nat, NEW b \in Nat, a <= b, b - a < M
              PROVE ((b % M) - (a % M)) % M = b - a
  BY DEF M
LEMMA Sum == ASSUME NEW r \in Nat, NEW s \in 0..(M - 1), NEW e \in 0..(M - 1), r % M = s
             PROVE /\ (e - s) % M \in Nat
                   /\ (r + ((e - s) % M)) % M = e
<1>1. CASE e >= s
  <2>1. (e - s) % M = e - s BY <1>1 DEF M
  <2>2. (r + (e - s)) % M = e BY <1>1 DEF M
  <2> QED BY <1>1, <2>1, <2>2 DEF M
<1>2. CASE e < s
  <2>1. (e - s) % M = e - s + M BY <1>2 DEF M
  <2>2. (r + (e - s + M)) % M = e BY <1>2 DEF M
  <2>3. e - s + M \in Nat BY <1>2 DEF M
  <2> QED BY <2>1, <2>2, <2>3
<1> QED BY <1>1, <1>2 DEF M
LEMMA Range == ASSUME NEW a \in Nat PROVE a % M \in 0..(M - 1)
  BY DEF M
LEMMA Zero == 0 \in 0..(M - 1) /\ 0 % M = 0
  BY DEF M

LEMMA InitInv == Init => Inv
  BY Zero DEF Init, Inv, Types

LEMMA StepInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
<1>1. ASSUME NEW x \in W, NEW n \in 0..(M - 1), Add(x, n) PROVE Inv'
  <2>0. n \in Nat BY DEF M
  <2>1. (c[x] + n) % M = (tot[x] + n) % M BY Cut, <2>0 DEF Inv, Types
  <2>2. (tot[x] + n) % M \in 0..(M - 1) BY Range, <2>0 DEF Inv, Types
  <2>3. tot' \in [W -> Nat] BY <1>1, <2>0 DEF Inv, Types, Add
  <2>4. c' \in [W -> 0..(M - 1)] BY <1>1, <2>1, <2>2 DEF Inv, Types, Add
  <2>5. \A y \in W : c'[y] = tot'[y] % M BY <1>1, <2>1 DEF Inv, Types, Add
  <2>6. \A y \in W : tot'[y] >= tot[y] BY <1>1, <2>0 DEF Inv, Types, Add
  <2>7. Types' BY <1>1, <2>3, <2>4 DEF Inv, Types, Add
  <2>8. ASSUME NEW k \in K, NEW y \in W
        PROVE /\ snap'[k][y] = at'[k][y] % M
              /\ at'[k][y] <= tot'[y]
              /\ rep'[k][y] % M = snap'[k][y]
              /\ fine'[k][y] => rep'[k][y] = at'[k][y]
    <3>1. at[k][y] \in Nat /\ tot[y] \in Nat /\ tot'[y] \in Nat BY <2>3 DEF Inv, Types
    <3>2. snap' = snap /\ at' = at /\ rep' = rep /\ fine' = fine BY <1>1 DEF Add
    <3> QED BY <2>6, <3>1, <3>2 DEF Inv
  <2> QED BY <2>5, <2>7, <2>8 DEF Inv
<1>2. ASSUME NEW k \in K, NEW x \in W, Diff(k, x) PROVE Inv'
  <2> DEFINE d == (c[x] - snap[k][x]) % M
  <2>1. d \in Nat /\ (rep[k][x] + d) % M = c[x]
    BY Sum DEF Inv, Types
  <2>2. fine[k][x] /\ tot[x] - at[k][x] < M => rep[k][x] + d = tot[x]
    <3> SUFFICES ASSUME fine[k][x], tot[x] - at[k][x] < M PROVE rep[k][x] + d = tot[x] OBVIOUS
    <3>1. at[k][x] \in Nat /\ tot[x] \in Nat /\ at[k][x] <= tot[x] BY DEF Inv, Types
    <3>2. c[x] = tot[x] % M /\ snap[k][x] = at[k][x] % M /\ rep[k][x] = at[k][x] BY DEF Inv
    <3>3. d = tot[x] - at[k][x] BY <3>1, <3>2, Rest
    <3> QED BY <3>1, <3>2, <3>3
  <2>3. c' = c /\ tot' = tot BY <1>2 DEF Diff
  <2>4. rep' = [rep EXCEPT ![k][x] = rep[k][x] + d] BY <1>2 DEF Diff
  <2> HIDE DEF d
  <2>5. Types' BY <1>2, <2>1, <2>3, <2>4 DEF Inv, Types, Diff
  <2>6. ASSUME NEW j \in K, NEW y \in W
        PROVE /\ snap'[j][y] = at'[j][y] % M
              /\ at'[j][y] <= tot'[y]
              /\ rep'[j][y] % M = snap'[j][y]
              /\ fine'[j][y] => rep'[j][y] = at'[j][y]
    <3>1. CASE j = k /\ y = x
      <4>1. snap'[j][y] = c[x] /\ at'[j][y] = tot[x] /\ rep'[j][y] = rep[k][x] + d
            /\ fine'[j][y] = (fine[k][x] /\ tot[x] - at[k][x] < M)
        BY <1>2, <2>4, <3>1 DEF Inv, Types, Diff
      <4> QED BY <2>1, <2>2, <2>3, <3>1, <4>1 DEF Inv, Types
    <3>2. CASE j # k \/ y # x
      <4>1. snap'[j][y] = snap[j][y] /\ at'[j][y] = at[j][y] /\ rep'[j][y] = rep[j][y] /\ fine'[j][y] = fine[j][y]
        BY <1>2, <2>4, <3>2 DEF Inv, Types, Diff
      <4> QED BY <2>3, <4>1 DEF Inv
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>3, <2>5, <2>6 DEF Inv
<1>3. CASE UNCHANGED vars BY <1>3 DEF Inv, Types, vars
<1> QED BY <1>1, <1>2, <1>3 DEF Next

THEOREM Always == Spec => []Inv
  BY InitInv, StepInv, PTL DEF Spec
THEOREM Kept == Spec => []NoneLost
<1>1. Inv => NoneLost BY DEF Inv, NoneLost
<1> QED BY <1>1, Always, PTL
THEOREM Added == Spec => []AddUp
<1>1. Inv => AddUp BY DEF Inv, AddUp
<1> QED BY <1>1, Always, PTL
=============================================================================
