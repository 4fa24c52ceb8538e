------------------------------- MODULE Topics -------------------------------
(***************************************************************************)
(* Topic names, topic filters, shared filters and client identifiers.      *)
(***************************************************************************)
EXTENDS Bytes

Slash  == 47
Plus   == 43
Hash   == 35
Dollar == 36
SharePrefix == << 36, 115, 104, 97, 114, 101 >>     \* $share

Wild(s) == \E i \in 1..Len(s) : s[i] = Plus \/ s[i] = Hash

\* [MQTT-4.7.1] '+' is a whole level, '#' is the whole last level
WildPlaced(s) ==
  \A i \in 1..Len(s) :
    /\ s[i] = Plus => /\ (i = 1 \/ s[i - 1] = Slash)
                      /\ (i = Len(s) \/ s[i + 1] = Slash)
    /\ s[i] = Hash => /\ (i = 1 \/ s[i - 1] = Slash)
                      /\ i = Len(s)

TopicName(s) == Text(s) /\ ~Wild(s)

Bad == [ok |-> FALSE, f |-> << >>, r |-> << >>, s |-> << >>, d |-> << >>]

\* f full text, r filter, s share name, d '$' prefix
ParseFilter(s) ==
  IF s = << >> \/ ~Text(s) THEN Bad
  ELSE IF s[1] # Dollar
       THEN IF WildPlaced(s) THEN [ok |-> TRUE, f |-> s, r |-> s, s |-> << >>, d |-> << >>] ELSE Bad
  ELSE LET i == IndexFrom(s, Slash, 1) IN
       IF i = 0 THEN Bad
       ELSE LET d == SubSeq(s, 1, i - 1) IN
            IF d # SharePrefix
            THEN IF WildPlaced(s) THEN [ok |-> TRUE, f |-> s, r |-> s, s |-> << >>, d |-> d] ELSE Bad
            ELSE LET j == IndexFrom(s, Slash, i + 1) IN
                 IF j = 0 THEN Bad
                 ELSE LET g == SubSeq(s, i + 1, j - 1)
                          r == SubSeq(s, j + 1, Len(s))
                      IN IF g # << >> /\ ~Wild(g) /\ r # << >> /\ WildPlaced(r)
                         THEN [ok |-> TRUE, f |-> s, r |-> r, s |-> g, d |-> d]
                         ELSE Bad

\* characters this library takes in a client identifier
ClientChar(c) == \/ c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
                 \/ c \in {32, 45, 95, 44, 46, 124, 47}
ClientId(s) == \A i \in 1..Len(s) : ClientChar(s[i])

\* subscription options byte
OptQoS(o) == o % 4
OptNL(o)  == (o \div 4) % 2 = 1
OptRAP(o) == (o \div 8) % 2 = 1
OptRH(o)  == (o \div 16) % 4
=============================================================================
