-------------------------------- MODULE Msg --------------------------------
(***************************************************************************)
(* A message object and the calls of the public API on it.                 *)
(*                                                                         *)
(* Outcome(m, c) is what call c (a record with its name op and arguments)  *)
(* may do on a message in state m:                                         *)
(*   r   "yes" it succeeds, "no" it is refused, "any" either               *)
(*   m1  the state after success                                           *)
(*   m0  the set of states allowed after a refusal                         *)
(* The bounded model (MCMsg), the scenario generator (Gen) and the trace   *)
(* specification (Trace) all step messages with this operator only.        *)
(***************************************************************************)
EXTENDS Wire

Res(r, m1, m0) == [r |-> r, m1 |-> m1, m0 |-> m0]
Done(m)        == Res("yes", m, {m})
If(c, m1, m)   == IF c THEN Res("yes", m1, {m}) ELSE Res("no", m, {m})

New(t, v) == Blank(t, v)

(* --------------------------------- properties -------------------------- *)
\* Go value kinds accepted for a property type; list kinds repeat it
ScalarKind(i) ==
  CASE PropType(i) = TByte   -> "u8"
    [] PropType(i) = TShort  -> "u16"
    [] PropType(i) \in {TInt, TVar} -> "u32"
    [] PropType(i) = TString -> "str"
    [] PropType(i) = TPair   -> "pair"
    [] PropType(i) = TBinary -> "bin"
    [] OTHER                 -> "none"
ListKind(i) == IF i = 11 THEN "u32s" ELSE IF i = 38 THEN "pairs" ELSE "none"

VarFits(i, s) == PropType(i) = TVar => \A k \in 1..Len(s) : s[k].a[1] < 16

SetAllowed(m, c) ==
  /\ m.v = 5
  /\ PropAllowed(c.i, m.t)
  /\ \/ c.g = ScalarKind(c.i)
     \/ c.g = ListKind(c.i) /\ PropRepeats(c.i, m.t)
  /\ VarFits(c.i, c.s)

\* value MQTT cannot carry: refusing it is as good as storing it
SetOdd(c) ==
  \E k \in 1..Len(c.s) :
    \/ Len(c.s[k].a) > 65535 \/ Len(c.s[k].b) > 65535
    \/ PropType(c.i) \in {TString, TPair} /\ ~(ValidUtf8(c.s[k].a) /\ ValidUtf8(c.s[k].b))

Before(i, j) == LET P(x) == CHOOSE k \in 1..Len(PropOrder) : PropOrder[k] = x IN P(i) < P(j)

WithProp(pr, i, s) ==
  SelectSeq(pr, LAMBDA e : Before(e.i, i)) \o << [i |-> i, s |-> s] >>
  \o SelectSeq(pr, LAMBDA e : Before(i, e.i))

PropSet(m, c) ==
  IF ~SetAllowed(m, c) THEN Res("no", m, {m})
  ELSE LET m1 == [m EXCEPT !.pr = WithProp(m.pr, c.i, c.s)] IN
       IF SetOdd(c) THEN Res("any", m1, {m}) ELSE Res("yes", m1, {m})

\* what a lookup gives
PropGet(m, i) == IF m.v = 5 THEN GetProp(m, i) ELSE << >>

(* --------------------------------- CONNECT ----------------------------- *)
WillOk(w) == w.t = PUBLISH /\ w.tp # << >> /\ w.pl # << >>

Creds(m, u, p) ==
  IF (m.v < 5 /\ u = << >> /\ p # << >>) \/ ~Text(u) THEN Res("no", m, {m})
  ELSE Done([m EXCEPT !.uf = u # << >>, !.us = u, !.pf = p # << >>, !.pw = p])

(* --------------------------------- PUBLISH ----------------------------- *)
SetAll(m, c) ==
  If(TopicName(c.a) /\ c.q \in 0..2,
     [m EXCEPT !.fl = << c.d, c.q, c.e >>, !.tp = c.a, !.pl = c.b], m)

CloneOf(m, v) ==
  [Blank(PUBLISH, v) EXCEPT !.tp = m.tp, !.pl = m.pl, !.ex = m.ex,
                            !.fl = << 0, m.fl[2], m.fl[3] >>,
                            !.pr = IF m.v = 5 /\ v = 5
                                   THEN SelectSeq(m.pr, LAMBDA e : e.i \in Forwarded) ELSE << >>]

(* ------------------------------ SUBACK, UNSUBACK ----------------------- *)
\* codes the setter takes: under 3.x an UNSUBACK has none on the wire, the
\* setter takes the SUBACK ones
SetterCodes(t, v) == IF v = 5 THEN WireCodes(t, 5) ELSE SubAckV3

Codes(m, cs) ==
  LET ok == \A k \in 1..Len(cs) : cs[k] \in SetterCodes(m.t, m.v)
      \* a list that is refused may have been taken up to the refused code
      k0 == CHOOSE k \in 1..Len(cs) : cs[k] \notin SetterCodes(m.t, m.v)
                                      /\ \A j \in 1..(k - 1) : cs[j] \in SetterCodes(m.t, m.v)
  IN IF ok THEN Done([m EXCEPT !.cs = m.cs \o cs])
     ELSE Res("no", m, {m, [m EXCEPT !.cs = m.cs \o SubSeq(cs, 1, k0 - 1)]})

AddTopic(m, c) ==
  LET f == ParseFilter(c.a) IN
  IF ~f.ok \/ (m.t = SUBSCRIBE /\ OptQoS(c.q) = 3) THEN Res("no", m, {m})
  ELSE Done([m EXCEPT !.ts = Append(m.ts, [f |-> f.f, r |-> f.r, s |-> f.s, d |-> f.d,
                                           o |-> IF m.t = SUBSCRIBE THEN c.q ELSE 0])])

(* ---------------------------------- calls ------------------------------ *)
\* calls that exist for a packet type
Has(t, op) ==
  CASE op \in {"ver", "pset", "pdis"} -> TRUE
    [] op = "id"    -> t \in IdTypes \cup {PUBLISH}
    [] op = "rc"    -> t \in Acks \cup {CONNACK, DISCONNECT, AUTH}
    [] op = "sp"    -> t = CONNACK
    [] op \in {"cl", "ka", "ci", "will", "rwill", "cred"} -> t = CONNECT
    [] op \in {"set", "dup", "ret", "qos", "top", "pay", "exp", "pid"} -> t = PUBLISH
    [] op = "codes" -> t \in {SUBACK, UNSUBACK}
    [] op = "topic" -> t \in {SUBSCRIBE, UNSUBSCRIBE}
    [] OTHER        -> FALSE

\* w: the message given to SetWill
Outcome(m, c, w) ==
  CASE c.op = "ver"  -> Done([m EXCEPT !.v = c.v])
    [] c.op = "pset" -> PropSet(m, c)
    [] c.op = "pdis" -> Done([m EXCEPT !.pr = << >>])
    [] c.op = "id"   -> Done([m EXCEPT !.id = << c.n >>])
    [] c.op = "rc"   ->
         CASE m.t \in {CONNACK, AUTH} -> If(c.n \in TypeCodes(m.t), [m EXCEPT !.rc = c.n], m)
           [] m.t \in Acks /\ m.v < 5 -> Done(m)
           [] OTHER                   -> Done([m EXCEPT !.rc = c.n])
    [] c.op = "sp"   -> Done([m EXCEPT !.sp = c.n = 1])
    [] c.op = "cl"   -> Done([m EXCEPT !.cl = c.n = 1])
    [] c.op = "ka"   -> Done([m EXCEPT !.ka = c.n])
    [] c.op = "ci"   -> If(ClientId(c.a), [m EXCEPT !.ci = c.a], m)
    [] c.op = "will" -> If(WillOk(w), [m EXCEPT !.wl = << w >>], m)
    [] c.op = "rwill" -> Done([m EXCEPT !.wl = << >>])
    [] c.op = "cred" -> Creds(m, c.a, c.b)
    [] c.op = "set"  -> SetAll(m, c)
    [] c.op = "dup"  -> Done([m EXCEPT !.fl[1] = c.n])
    [] c.op = "ret"  -> Done([m EXCEPT !.fl[3] = c.n])
    [] c.op = "qos"  -> If(c.n \in 0..2, [m EXCEPT !.fl[2] = c.n], m)
    [] c.op = "top"  -> IF TopicName(c.a) /\ c.a = << >> /\ m.v = 5
                        THEN Done([m EXCEPT !.tp = c.a])
                        ELSE If(TopicName(c.a) /\ c.a # << >>, [m EXCEPT !.tp = c.a], m)
    [] c.op = "pay"  -> Done([m EXCEPT !.pl = c.a])
    [] c.op = "exp"  -> Done([m EXCEPT !.ex = c.a])
    [] c.op = "pid"  -> Done([m EXCEPT !.pi = c.a])
    [] c.op = "codes" -> Codes(m, c.cs)
    [] c.op = "topic" -> AddTopic(m, c)

(* ------------------------------- observation --------------------------- *)
\* what the accessors show of a message
Proj(m) ==
  LET x == [m EXCEPT !.pr = IF m.v = 5 THEN m.pr ELSE << >>, !.uf = FALSE, !.pf = FALSE]
  IN IF m.wl = << >> THEN x
     ELSE [x EXCEPT !.wl = << [m.wl[1] EXCEPT !.pr = IF m.wl[1].v = 5 THEN m.wl[1].pr ELSE << >>] >>]

Fields == {"t", "v", "id", "pr", "fl", "tp", "pl", "ex", "pi", "rc", "sp", "cl", "ka", "ci", "us", "pw",
           "wl", "ts", "cs"}
=============================================================================
