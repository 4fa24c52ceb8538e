------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* A configuration that is written entry by entry and normalised at any    *)
(* point.                                                                  *)
(***************************************************************************)
EXTENDS Config, TLC, Json

CONSTANTS N, Emit
VARIABLES g, e      \* kind of value, its entries
vars == << g, e >>

Key == {[t |-> "s", k |-> x] : x \in {"", "a", "A"}} \cup {[t |-> "i", k |-> ""], [t |-> "n", k |-> ""], [t |-> "b", k |-> "k"], [t |-> "p", k |-> "a"],
        [t |-> "x", k |-> "named"], [t |-> "x", k |-> "byte1"]}
Val == {4, 7, 17}   \* two kinds of values and nil (3 modulo 14)
Has(k) == \E j \in 1..Len(e) : e[j].t = k.t /\ e[j].k = k.k

Init == g \in {"sm", "im"} /\ e = << >>
Next == /\ Len(e) < N
        /\ \E k \in Key, v \in Val : /\ ~Has(k)
                                     /\ g = "sm" => k.t = "s"
                                     /\ e' = Append(e, [t |-> k.t, k |-> k.k, v |-> v])
        /\ g' = g
        /\ Emit => PrintT("G " \o ToJson([g |-> g, e |-> e']))
Spec == Init /\ [][Next]_vars

Ents(x) == {x[j] : j \in 1..Len(x)}
Now     == Normal(g, Ents(e))
\* the result is a configuration itself, with itself as result
Again   == Now.ok => Normal("sm", {[t |-> "s", k |-> p[1], v |-> p[2]] : p \in Now.map}) = Now
\* nothing missing, nothing invented, every key once
Exact   == Now.ok => /\ Cardinality(Now.map) = Len(e)
                     /\ \A j \in 1..Len(e) : << e[j].k, e[j].v >> \in Now.map
Nothing == ~Now.ok => Now.map = {}
\* one wrong key spoils the whole configuration for good
Spoilt  == [][~Now.ok => ~Now'.ok]_vars
Only    == ~Now.ok <=> \E j \in 1..Len(e) : e[j].t # "s"
Grows   == [][Now'.ok => Now.map \subseteq Now'.map]_vars
=============================================================================
