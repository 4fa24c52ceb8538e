------------------------------- MODULE MCBytes -----------------------------
(***************************************************************************)
(* Every packet of type T with a body of at most N bytes of an alphabet    *)
(* that is made for that type, and what the reader makes of it. With Emit  *)
(* every one is printed and decoded by the real code.                      *)
(***************************************************************************)
EXTENDS Wire, TLC, Json

CONSTANTS T, V, N, Emit
VARIABLES h, b
vars == << h, b >>

\* what every body starts with: protocol name and level, packet identifier
Fixed == CASE T = CONNECT -> EncLP(ProtoName(V)) \o << V >>
           [] T \in {SUBSCRIBE, UNSUBSCRIBE, SUBACK, UNSUBACK} -> << 0, 7 >>
           [] OTHER -> << >>

Alphabet ==
  CASE T = CONNECT -> {0, 1, 2, 97} \cup (IF V = 5 THEN {33, 196} ELSE {4, 206})
    [] T = CONNACK -> {0, 1, 2, 36, 135} \cup (IF V = 5 THEN {37, 5} ELSE {})
    [] T = PUBLISH -> {0, 1, 2, 97, 43} \cup (IF V = 5 THEN {35, 3} ELSE {})
    [] T \in Acks  -> {0, 1, 16, 146} \cup (IF V = 5 THEN {31, 38, 5} ELSE {})
    [] T \in {SUBSCRIBE, UNSUBSCRIBE} -> {0, 1, 2, 97, 35} \cup (IF V = 5 THEN {11} ELSE {})
    [] T \in {SUBACK, UNSUBACK} -> {0, 1, 128, 17} \cup (IF V = 5 THEN {31, 3, 5} ELSE {})
    [] T = DISCONNECT -> {0, 4, 5, 17, 129, 1}
    [] T = AUTH -> {0, 24, 21, 4, 1, 97}
    [] OTHER -> {0, 1, 255}

Init == /\ b = Fixed
        /\ h \in (IF T = PUBLISH THEN {0, 1, 2, 4, 8, 10, 6} ELSE {HeaderFlags(T)})
Next == /\ Len(b) - Len(Fixed) < N
        /\ \E c \in Alphabet : b' = Append(b, c)
        /\ UNCHANGED h
        /\ Emit => PrintT("P " \o ToJson([b |-> << T * 16 + h >> \o EncVar(Len(b')) \o b', bad |-> ""]))
Spec == Init /\ [][Next]_vars

Whole == << T * 16 + h >> \o EncVar(Len(b)) \o b
P == Parse(V, Whole)

Verdicts == P.st \in {"ok", "may", "rej"}
\* what is read well can be written, and is read again as the same
Rewritten == P.st = "ok" => LET x == Layout(P.m) q == Parse(V, x) IN Encodable(P.m) /\ q.st = "ok" /\ q.m = P.m
\* the shortest way of writing is the one that is written, or the packet has
\* parts that may be left out or put elsewhere
Canonical == P.st = "ok" /\ Layout(P.m) # Whole =>
               \/ T \in Acks \cup {DISCONNECT, AUTH} /\ V = 5
               \/ P.m.pr # << >> \/ (P.m.wl # << >> /\ P.m.wl[1].pr # << >>)
\* what one byte more would make of it is another packet: the end is where
\* the length says
Prefix == \A k \in 0..(Len(Whole) - 1) : Parse(V, SubSeq(Whole, 1, k)).st \in {"inc", "rej"}
Header == P.st = "rej" /\ P.why \in {"type", "flags", "qos"} <=> HeaderRule(V, Whole[1]) # ""
=============================================================================
