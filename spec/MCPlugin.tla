------------------------------ MODULE MCPlugin ------------------------------
(***************************************************************************)
(* Two descriptors that are changed and copied, all histories of N steps.  *)
(***************************************************************************)
EXTENDS Plugin, TLC, Json

CONSTANTS N, Emit
VARIABLES s, hist
vars == << s, hist >>

Text == {"", "a", "b"}
Step(x) == s' = Change(s, x) /\ hist' = Append(hist, x)
Init == s = Blank /\ hist = << >>
Next == /\ Len(hist) < N
        /\ \/ \E o \in 0..1, v \in 0..3, k \in Text : Step([t |-> "set", o |-> o, v |-> v, k |-> k])
           \/ \E o \in 0..1 : Step([t |-> "copy", o |-> o, v |-> 0, k |-> ""])
        /\ Emit /\ Len(hist') = N => PrintT("D " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

\* a second definition: going back through the history to what a text stems from
RECURSIVE Stem(_, _, _)
Stem(o, v, j) == IF j = 0 THEN ""
                 ELSE LET x == hist[j] IN
                      IF x.t = "set" /\ x.o = o /\ x.v = v THEN x.k
                      ELSE IF x.t = "copy" /\ x.o # o THEN Stem(x.o, v, j - 1)
                      ELSE Stem(o, v, j - 1)
Stems == \A o \in 0..1, v \in 0..3 : s[o][v] = Stem(o, v, Len(hist))
\* a change is seen under its name and under no other, and in its descriptor only
Own   == [][LET x == hist'[Len(hist')] IN x.t = "set" =>
              /\ s'[x.o][x.v] = x.k
              /\ \A o \in 0..1, v \in 0..3 : (o # x.o \/ v # x.v) => s'[o][v] = s[o][v]]_vars
Copy  == [][LET x == hist'[Len(hist')] IN x.t = "copy" => s'[1 - x.o] = s[x.o] /\ s'[x.o] = s[x.o]]_vars
View  == << s, Len(hist) >>
=============================================================================
