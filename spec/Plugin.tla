------------------------------- MODULE Plugin -------------------------------
(***************************************************************************)
(* Descriptors of plugins: texts (0 version, 1 name, 2 description,        *)
(* 3 type) that are changed and asked for. A step is [t, o: descriptor,    *)
(* v: field, k: text]; a copy [t: "copy", o] fills the other descriptor.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Blank == [o \in 0..1 |-> [v \in 0..3 |-> ""]]
Change(s, x) == CASE x.t = "set"  -> [s EXCEPT ![x.o][x.v] = x.k]
                  [] x.t = "copy" -> [s EXCEPT ![1 - x.o] = s[x.o]]
                  [] OTHER        -> s
RECURSIVE States(_, _, _)
\* states before each of the steps from k on
States(s, e, k) == IF k > Len(e) THEN << >> ELSE << s >> \o States(Change(s, e[k]), e, k + 1)
Told(s, x)   == s[x.o][x.v]
=============================================================================
