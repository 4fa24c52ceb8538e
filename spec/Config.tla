------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Plugin configuration: a map with keys of any kind, as a set of entries  *)
(* [t: kind of the key ("s": string), k: key, v: value], becomes a map     *)
(* with string keys, or is refused.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Maps    == {"sm", "im", "smnil", "imnil"}
\* sm: map with string keys, im: map with any keys, nil: no map behind the interface value
Accepts(g, ents) == g \in {"sm", "smnil", "imnil"} \/ (g = "im" /\ \A x \in ents : x.t = "s")
Entries(ents)    == {<< x.k, x.v >> : x \in {y \in ents : y.t = "s"}}
Normal(g, ents)  == IF Accepts(g, ents) THEN [ok |-> TRUE, map |-> Entries(ents)] ELSE [ok |-> FALSE, map |-> {}]
=============================================================================
