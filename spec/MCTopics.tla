------------------------------- MODULE MCTopics ----------------------------
(***************************************************************************)
(* All texts of at most N pieces, judged twice: by position (Topics) and   *)
(* by levels, the way chapter 4.7 and 4.8.2 of MQTT 5.0 puts it. With Emit *)
(* every text is printed, and given to the real validation functions.      *)
(***************************************************************************)
EXTENDS Topics, TLC, Json

CONSTANTS N, Emit
VARIABLES s, n
vars == << s, n >>

Pieces == {<< 97 >>, << Plus >>, << Hash >>, << Slash >>, << Dollar >>, SharePrefix}

Init == s = << >> /\ n = 0
Next == /\ n < N
        /\ \E p \in Pieces : s' = s \o p
        /\ n' = n + 1
        /\ Emit => PrintT("T " \o ToJson(s'))
Spec == Init /\ [][Next]_vars

(* -------------------------------- by levels ---------------------------- *)
RECURSIVE Split(_, _)
Split(x, cur) == IF x = << >> THEN << cur >>
                 ELSE IF Head(x) = Slash THEN << cur >> \o Split(Tail(x), << >>)
                 ELSE Split(Tail(x), Append(cur, Head(x)))
RECURSIVE Join(_)
Join(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o << Slash >> \o Join(Tail(ls))
Has(l, c) == \E k \in 1..Len(l) : l[k] = c

LevelsFine(ls) ==
  \A k \in 1..Len(ls) :
    /\ Has(ls[k], Plus) => ls[k] = << Plus >>
    /\ Has(ls[k], Hash) => ls[k] = << Hash >> /\ k = Len(ls)

Verdict ==
  LET ls == Split(s, << >>) IN
  IF s = << >> THEN [ok |-> FALSE]
  ELSE IF ls[1] = SharePrefix
       THEN IF /\ Len(ls) >= 3
               /\ ls[2] # << >> /\ ~Has(ls[2], Plus) /\ ~Has(ls[2], Hash)
               /\ (Len(ls) > 3 \/ ls[3] # << >>)
               /\ LevelsFine(SubSeq(ls, 3, Len(ls)))
            THEN [ok |-> TRUE, f |-> s, r |-> Join(SubSeq(ls, 3, Len(ls))), s |-> ls[2], d |-> SharePrefix]
            ELSE [ok |-> FALSE]
  ELSE IF Len(ls[1]) > 0 /\ ls[1][1] = Dollar
       THEN IF Len(ls) >= 2 /\ LevelsFine(ls)
            THEN [ok |-> TRUE, f |-> s, r |-> s, s |-> << >>, d |-> ls[1]]
            ELSE [ok |-> FALSE]
  ELSE IF LevelsFine(ls) THEN [ok |-> TRUE, f |-> s, r |-> s, s |-> << >>, d |-> << >>] ELSE [ok |-> FALSE]

Agree == LET a == ParseFilter(s) IN IF Verdict.ok THEN a = Verdict ELSE ~a.ok
NameAgrees == TopicName(s) <=> \A k \in 1..Len(s) : s[k] \notin {Plus, Hash}

\* a name is a filter for itself, except where '$' makes it special
NameIsFilter == TopicName(s) /\ s # << >> /\ s[1] # Dollar => ParseFilter(s).ok
\* what a shared filter filters is a filter of its own, unless it starts with '$'
SharedRest == LET a == ParseFilter(s) IN
              a.ok /\ a.s # << >> => /\ s = SharePrefix \o << Slash >> \o a.s \o << Slash >> \o a.r
                                     /\ a.r[1] # Dollar => ParseFilter(a.r).ok
=============================================================================
