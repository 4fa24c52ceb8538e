-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The MQTT wire format, as a reader (Parse) and as a writer (Layout).     *)
(*                                                                         *)
(* Parse(v, b) is what decoding b under version v has to give:             *)
(*   "ok"   b is one well formed packet; m is its content                  *)
(*   "may"  MQTT or the library's own rules leave acceptance open; if it   *)
(*          is accepted the content is m                                   *)
(*   "rej"  it has to be refused; why is the broken rule                   *)
(*   "inc"  it is a proper prefix of a packet; need is the full length, 0  *)
(*          while the fixed header is incomplete                           *)
(*   "long" it goes on after the packet's end; need is the full length     *)
(***************************************************************************)
EXTENDS Bytes, Topics, Tables

(* --------------------------------- messages ---------------------------- *)
\* one record for all packet types; unused fields keep these values
Blank(t, v) ==
  [t  |-> t,            \* packet type
   v  |-> v,            \* protocol version
   id |-> << >>,        \* << packet identifier >> or << >>
   pr |-> << >>,        \* properties: << [i |-> id, s |-> << values >>], ... >>, ascending id
   fl |-> << 0, 0, 0 >>,\* PUBLISH: DUP, QoS, RETAIN
   tp |-> << >>,        \* PUBLISH topic
   pl |-> << >>,        \* PUBLISH payload
   ex |-> << >>,        \* PUBLISH expiry time
   pi |-> << >>,        \* PUBLISH local id of the publisher
   rc |-> 0,            \* reason code
   sp |-> FALSE,        \* CONNACK session present
   cl |-> FALSE,        \* CONNECT clean
   ka |-> 0,            \* CONNECT keep alive
   ci |-> << >>,        \* CONNECT client id
   uf |-> FALSE,        \* CONNECT has a user name
   us |-> << >>,
   pf |-> FALSE,        \* CONNECT has a password
   pw |-> << >>,
   wl |-> << >>,        \* CONNECT << will >>
   ts |-> << >>,        \* SUBSCRIBE, UNSUBSCRIBE topics: [f, r, s, d, o]
   cs |-> << >>]        \* SUBACK, UNSUBACK codes

\* a property value: g kind of value, a bytes, b second string of a pair
Val(g, a, b) == [g |-> g, a |-> a, b |-> b]

(* -------------------------------- properties --------------------------- *)
PV(ok, val, nx, why) == [ok |-> ok, val |-> val, nx |-> nx, why |-> why]
NoVal == Val("u8", << >>, << >>)

ReadValue(b, p, e, i) ==
  LET pt == PropType(i) IN
  CASE pt = TByte  -> IF p > e THEN PV(FALSE, NoVal, p, "prop-cut")
                      ELSE PV(TRUE, Val("u8", << b[p] >>, << >>), p + 1, "")
    [] pt = TShort -> IF p + 1 > e THEN PV(FALSE, NoVal, p, "prop-cut")
                      ELSE PV(TRUE, Val("u16", SubSeq(b, p, p + 1), << >>), p + 2, "")
    [] pt = TInt   -> IF p + 3 > e THEN PV(FALSE, NoVal, p, "prop-cut")
                      ELSE PV(TRUE, Val("u32", SubSeq(b, p, p + 3), << >>), p + 4, "")
    [] pt = TVar   -> LET q == ReadVar(b, p, e) IN
                      IF q.k = "short" THEN PV(FALSE, NoVal, p, "prop-cut")
                      ELSE IF ~Minimal(q) THEN PV(FALSE, NoVal, p, "prop-varint")
                      ELSE PV(TRUE, Val("u32", Enc32(q.n), << >>), p + q.l, "")
    [] pt = TString -> LET q == ReadLP(b, p, e) IN
                      IF ~q.ok THEN PV(FALSE, NoVal, p, "prop-cut")
                      ELSE IF ~ValidUtf8(q.s) THEN PV(FALSE, NoVal, p, "prop-utf8")
                      ELSE PV(TRUE, Val("str", q.s, << >>), q.nx, "")
    [] pt = TBinary -> LET q == ReadLP(b, p, e) IN
                      IF ~q.ok THEN PV(FALSE, NoVal, p, "prop-cut")
                      ELSE PV(TRUE, Val("bin", q.s, << >>), q.nx, "")
    [] pt = TPair  -> LET q == ReadLP(b, p, e) IN
                      IF ~q.ok THEN PV(FALSE, NoVal, p, "prop-cut")
                      ELSE IF ~ValidUtf8(q.s) THEN PV(FALSE, NoVal, p, "prop-utf8")
                      ELSE LET r == ReadLP(b, q.nx, e) IN
                           IF ~r.ok THEN PV(FALSE, NoVal, p, "prop-cut")
                           ELSE IF ~ValidUtf8(r.s) THEN PV(FALSE, NoVal, p, "prop-utf8")
                           ELSE PV(TRUE, Val("pair", q.s, r.s), r.nx, "")

\* value MQTT gives no meaning to, or text it lets a receiver refuse
OddValue(i, val) ==
  \/ i \in {1, 23, 25, 36, 37, 40, 41, 42} /\ val.a[1] > 1
  \/ i \in {11, 33, 35, 39} /\ \A k \in 1..Len(val.a) : val.a[k] = 0
  \/ PropType(i) \in {TString, TPair} /\ ~(NoControl(val.a) /\ NoControl(val.b))
  \/ i = 8 /\ (Wild(val.a) \/ val.a = << >>)

PB(ok, why, nx, pr, may) == [ok |-> ok, why |-> why, nx |-> nx, pr |-> pr, may |-> may]

RECURSIVE ReadProps(_, _, _, _, _, _)
\* reads the properties in p..e; acc: << [i, x], ... >> read so far
ReadProps(b, p, e, t, forbidden, acc) ==
  IF p > e THEN [ok |-> TRUE, why |-> "", acc |-> acc]
  ELSE LET q == ReadVar(b, p, e) IN
       IF q.k # "ok" THEN [ok |-> FALSE, why |-> "prop-cut", acc |-> acc]
       ELSE IF ~Minimal(q) THEN [ok |-> FALSE, why |-> "prop-varint", acc |-> acc]
       ELSE IF ~PropAllowed(q.n, t) \/ q.n \in forbidden
            THEN [ok |-> FALSE, why |-> "prop-id", acc |-> acc]
       ELSE IF ~PropRepeats(q.n, t) /\ \E k \in 1..Len(acc) : acc[k].i = q.n
            THEN [ok |-> FALSE, why |-> "prop-dup", acc |-> acc]
       ELSE LET x == ReadValue(b, p + q.l, e, q.n) IN
            IF ~x.ok THEN [ok |-> FALSE, why |-> x.why, acc |-> acc]
            ELSE ReadProps(b, x.nx, e, t, forbidden, Append(acc, [i |-> q.n, x |-> x.val]))

\* occurrences collected per property, in wire order
Grouped(acc) ==
  LET ids == SelectSeq(PropOrder, LAMBDA i : \E k \in 1..Len(acc) : acc[k].i = i) IN
  [k \in 1..Len(ids) |->
     LET mine == SelectSeq(acc, LAMBDA a : a.i = ids[k]) IN
     [i |-> ids[k], s |-> [j \in 1..Len(mine) |-> mine[j].x]]]

\* the property block starting at p
Props(b, p, e, t, forbidden) ==
  LET q == ReadVar(b, p, e) IN
  IF q.k # "ok" THEN PB(FALSE, "prop-len", p, << >>, FALSE)
  ELSE IF ~Minimal(q) THEN PB(FALSE, "prop-varint", p, << >>, FALSE)
  ELSE IF p + q.l + q.n - 1 > e THEN PB(FALSE, "prop-overrun", p, << >>, FALSE)
  ELSE LET r == ReadProps(b, p + q.l, p + q.l + q.n - 1, t, forbidden, << >>) IN
       IF ~r.ok THEN PB(FALSE, r.why, p, << >>, FALSE)
       ELSE PB(TRUE, "", p + q.l + q.n, Grouped(r.acc),
               \E k \in 1..Len(r.acc) : OddValue(r.acc[k].i, r.acc[k].x))

GetProp(m, i) ==
  IF \E k \in 1..Len(m.pr) : m.pr[k].i = i
  THEN m.pr[CHOOSE k \in 1..Len(m.pr) : m.pr[k].i = i].s
  ELSE << >>

(* ------------------------------ packet bodies -------------------------- *)
\* p..e is the body. st: "ok", "may", "rej"
Body(st, why, m) == [st |-> st, why |-> why, m |-> m]
Rej(why)  == Body("rej", why, << >>)
Good(m)   == Body("ok", "", m)
Maybe(why, m) == Body("may", why, m)
GoodIf(c, why, m) == IF c THEN Good(m) ELSE Maybe(why, m)

NoProps(p) == PB(TRUE, "", p, << >>, FALSE)

ConnectBody(b, p, e) ==
  LET nm == ReadLP(b, p, e) IN
  IF ~nm.ok THEN Rej("cut")
  ELSE IF nm.nx + 3 > e THEN Rej("cut")
  ELSE
  LET v  == b[nm.nx]
      cf == b[nm.nx + 1]
      Bit(n) == (cf \div n) % 2 = 1
      q  == (cf \div 8) % 4
  IN
  IF v \notin Versions \/ nm.s # ProtoName(v) THEN Rej("proto")
  ELSE IF Bit(1) THEN Rej("connect-reserved")
  ELSE IF q = 3 THEN Rej("will-qos")
  ELSE IF ~Bit(4) /\ (q # 0 \/ Bit(32)) THEN Rej("will-flags")
  ELSE IF v < 5 /\ Bit(64) /\ ~Bit(128) THEN Rej("password-flag")
  ELSE
  LET P == IF v = 5 THEN Props(b, nm.nx + 4, e, CONNECT, {}) ELSE NoProps(nm.nx + 4) IN
  IF ~P.ok THEN Rej(P.why)
  ELSE LET ci == ReadLP(b, P.nx, e) IN
  IF ~ci.ok THEN Rej("cut")
  ELSE IF ~ValidUtf8(ci.s) THEN Rej("client-utf8")
  ELSE IF ci.s = << >> /\ v < 5 /\ ~Bit(2) THEN Rej("client-empty")
  ELSE
  LET WP == IF Bit(4) /\ v = 5 THEN Props(b, ci.nx, e, PUBLISH, WillForbidden) ELSE NoProps(ci.nx) IN
  IF ~WP.ok THEN Rej(WP.why)
  ELSE
  LET wt == IF Bit(4) THEN ReadLP(b, WP.nx, e) ELSE [ok |-> TRUE, s |-> << >>, nx |-> WP.nx] IN
  IF ~wt.ok THEN Rej("cut")
  ELSE IF Bit(4) /\ ~TopicName(wt.s) THEN Rej("will-topic")
  ELSE IF Bit(4) /\ v < 5 /\ wt.s = << >> THEN Rej("will-topic")
  ELSE
  LET wp == IF Bit(4) THEN ReadLP(b, wt.nx, e) ELSE [ok |-> TRUE, s |-> << >>, nx |-> wt.nx] IN
  IF ~wp.ok THEN Rej("cut")
  ELSE
  LET us == IF Bit(128) THEN ReadLP(b, wp.nx, e) ELSE [ok |-> TRUE, s |-> << >>, nx |-> wp.nx] IN
  IF ~us.ok THEN Rej("cut")
  ELSE IF ~ValidUtf8(us.s) THEN Rej("user-utf8")
  ELSE
  LET pw == IF Bit(64) THEN ReadLP(b, us.nx, e) ELSE [ok |-> TRUE, s |-> << >>, nx |-> us.nx] IN
  IF ~pw.ok THEN Rej("cut")
  ELSE IF pw.nx <= e THEN Rej("left-over")
  ELSE
  LET will == [Blank(PUBLISH, v) EXCEPT !.fl = << 0, q, IF Bit(32) THEN 1 ELSE 0 >>,
                                        !.tp = wt.s, !.pl = wp.s, !.pr = WP.pr]
      m == [Blank(CONNECT, v) EXCEPT !.cl = Bit(2), !.ka = U16(b, nm.nx + 2), !.pr = P.pr, !.ci = ci.s,
                                     !.uf = Bit(128), !.us = us.s, !.pf = Bit(64), !.pw = pw.s,
                                     !.wl = IF Bit(4) THEN << will >> ELSE << >>]
  IN GoodIf(/\ ~P.may /\ ~WP.may
            /\ ClientId(ci.s)
            /\ NoControl(us.s)
            /\ ~(v = 3 /\ ci.s = << >>)
            /\ ~(Bit(4) /\ wt.s = << >>)
            /\ ~(v = 5 /\ GetProp(m, 22) # << >> /\ GetProp(m, 21) = << >>),
            "connect-odd", m)

ConnAckBody(v, b, p, e) ==
  IF p + 1 > e THEN Rej("cut")
  ELSE IF b[p] > 1 THEN Rej("connack-reserved")
  ELSE IF b[p + 1] \notin TypeCodes(CONNACK) THEN Rej("code")
  ELSE LET P == IF v = 5 THEN Props(b, p + 2, e, CONNACK, {}) ELSE NoProps(p + 2) IN
  IF ~P.ok THEN Rej(P.why)
  ELSE IF P.nx <= e THEN Rej("left-over")
  ELSE GoodIf(/\ ~P.may
              /\ ~(b[p] = 1 /\ (v = 3 \/ b[p + 1] # 0)),
              "connack-odd",
              [Blank(CONNACK, v) EXCEPT !.sp = b[p] = 1, !.rc = b[p + 1], !.pr = P.pr])

PublishBody(v, fl, b, p, e) ==
  LET q == (fl \div 2) % 4
      d == fl \div 8
      tp == ReadLP(b, p, e)
  IN
  IF q = 0 /\ d = 1 THEN Rej("dup-qos0")
  ELSE IF ~tp.ok THEN Rej("cut")
  ELSE IF ~TopicName(tp.s) THEN Rej("topic")
  ELSE IF tp.s = << >> /\ v < 5 THEN Rej("topic-empty")
  ELSE IF q > 0 /\ tp.nx + 1 > e THEN Rej("id-cut")
  ELSE
  LET p2 == IF q > 0 THEN tp.nx + 2 ELSE tp.nx
      P  == IF v = 5 THEN Props(b, p2, e, PUBLISH, PublishForbidden) ELSE NoProps(p2)
  IN
  IF ~P.ok THEN Rej(P.why)
  ELSE
  LET m == [Blank(PUBLISH, v) EXCEPT !.fl = << d, q, fl % 2 >>, !.tp = tp.s,
                                     !.id = IF q > 0 THEN << U16(b, tp.nx) >> ELSE << >>,
                                     !.pr = P.pr, !.pl = SubSeq(b, P.nx, e)]
      al == GetProp(m, 35)
  IN IF tp.s = << >> /\ (al = << >> \/ al[1].a = << 0, 0 >>) THEN Rej("topic-alias")
     ELSE GoodIf(/\ ~P.may
                 /\ ~(q > 0 /\ m.id = << 0 >>), "publish-odd", m)

AckBody(t, v, b, p, e) ==
  IF p + 1 > e THEN Rej("id-cut")
  ELSE
  LET m == [Blank(t, v) EXCEPT !.id = << U16(b, p) >>] IN
  IF p + 2 > e THEN GoodIf(m.id # << 0 >>, "id-zero", m)
  ELSE IF v < 5 THEN Rej("left-over")
  ELSE IF b[p + 2] \notin TypeCodes(t) THEN Rej("code")
  ELSE
  LET P == IF p + 3 > e THEN NoProps(p + 3) ELSE Props(b, p + 3, e, t, {}) IN
  IF ~P.ok THEN Rej(P.why)
  ELSE IF P.nx <= e THEN Rej("left-over")
  ELSE GoodIf(m.id # << 0 >> /\ ~P.may, "ack-odd", [m EXCEPT !.rc = b[p + 2], !.pr = P.pr])

RECURSIVE ReadTopics(_, _, _, _, _)
\* topic entries in p..e; opts: each followed by an options byte
ReadTopics(b, p, e, opts, acc) ==
  IF p > e THEN [ok |-> TRUE, why |-> "", ts |-> acc]
  ELSE LET q == ReadLP(b, p, e) IN
       IF ~q.ok THEN [ok |-> FALSE, why |-> "cut", ts |-> acc]
       ELSE IF opts /\ q.nx > e THEN [ok |-> FALSE, why |-> "cut", ts |-> acc]
       ELSE LET f == ParseFilter(q.s) IN
            IF ~f.ok THEN [ok |-> FALSE, why |-> "filter", ts |-> acc]
            ELSE IF opts /\ OptQoS(b[q.nx]) = 3 THEN [ok |-> FALSE, why |-> "sub-qos", ts |-> acc]
            ELSE ReadTopics(b, IF opts THEN q.nx + 1 ELSE q.nx, e, opts,
                            Append(acc, [f |-> f.f, r |-> f.r, s |-> f.s, d |-> f.d,
                                         o |-> IF opts THEN b[q.nx] ELSE 0]))

SubscribeBody(t, v, b, p, e) ==
  IF p + 1 > e THEN Rej("id-cut")
  ELSE LET P == IF v = 5 THEN Props(b, p + 2, e, t, {}) ELSE NoProps(p + 2) IN
  IF ~P.ok THEN Rej(P.why)
  ELSE LET T == ReadTopics(b, P.nx, e, t = SUBSCRIBE, << >>) IN
  IF ~T.ok THEN Rej(T.why)
  ELSE IF T.ts = << >> THEN Rej("no-topic")
  ELSE IF \E k \in 1..Len(T.ts) : T.ts[k].o >= (IF v = 5 THEN 64 ELSE 4) THEN Rej("sub-reserved")
  ELSE LET m == [Blank(t, v) EXCEPT !.id = << U16(b, p) >>, !.pr = P.pr, !.ts = T.ts] IN
       GoodIf(/\ ~P.may
              /\ m.id # << 0 >>
              /\ \A k \in 1..Len(T.ts) : /\ OptRH(T.ts[k].o) # 3
                                         /\ ~(OptNL(T.ts[k].o) /\ T.ts[k].d = SharePrefix),
              "subscribe-odd", m)

SubAckBody(t, v, b, p, e) ==
  IF p + 1 > e THEN Rej("id-cut")
  ELSE
  LET m == [Blank(t, v) EXCEPT !.id = << U16(b, p) >>] IN
  IF t = UNSUBACK /\ p + 2 > e THEN GoodIf(v < 5 /\ m.id # << 0 >>, "unsuback-odd", m)
  ELSE IF t = UNSUBACK /\ v < 5 THEN Rej("left-over")
  ELSE
  LET P == IF v = 5 THEN Props(b, p + 2, e, t, {}) ELSE NoProps(p + 2) IN
  IF ~P.ok THEN Rej(P.why)
  ELSE
  LET cs == SubSeq(b, P.nx, e) IN
  IF \E k \in 1..Len(cs) : cs[k] \notin WireCodes(t, v) THEN Rej("code")
  ELSE GoodIf(~P.may /\ m.id # << 0 >> /\ cs # << >>, "suback-odd", [m EXCEPT !.cs = cs, !.pr = P.pr])

DisconnectBody(v, b, p, e) ==
  IF p > e THEN Good(Blank(DISCONNECT, v))
  ELSE IF v < 5 THEN Rej("left-over")
  ELSE IF b[p] \notin TypeCodes(DISCONNECT) THEN Rej("code")
  ELSE IF p = e THEN Maybe("disconnect-short", [Blank(DISCONNECT, v) EXCEPT !.rc = b[p]])
  ELSE LET P == Props(b, p + 1, e, DISCONNECT, {}) IN
  IF ~P.ok THEN Rej(P.why)
  ELSE IF P.nx <= e THEN Rej("left-over")
  ELSE GoodIf(~P.may, "disconnect-odd", [Blank(DISCONNECT, v) EXCEPT !.rc = b[p], !.pr = P.pr])

AuthBody(v, b, p, e) ==
  IF p > e THEN Good(Blank(AUTH, v))
  ELSE IF b[p] \notin TypeCodes(AUTH) THEN Rej("code")
  ELSE IF p = e THEN Maybe("auth-short", [Blank(AUTH, v) EXCEPT !.rc = b[p]])
  ELSE LET P == Props(b, p + 1, e, AUTH, {}) IN
  IF ~P.ok THEN Rej(P.why)
  ELSE IF P.nx <= e THEN Rej("left-over")
  ELSE LET m == [Blank(AUTH, v) EXCEPT !.rc = b[p], !.pr = P.pr] IN
       GoodIf(~P.may /\ ~(GetProp(m, 22) # << >> /\ GetProp(m, 21) = << >>), "auth-odd", m)

PacketBody(t, v, fl, b, p, e) ==
  CASE t = CONNECT    -> ConnectBody(b, p, e)
    [] t = CONNACK    -> ConnAckBody(v, b, p, e)
    [] t = PUBLISH    -> PublishBody(v, fl, b, p, e)
    [] t \in Acks     -> AckBody(t, v, b, p, e)
    [] t \in {SUBSCRIBE, UNSUBSCRIBE} -> SubscribeBody(t, v, b, p, e)
    [] t \in {SUBACK, UNSUBACK}       -> SubAckBody(t, v, b, p, e)
    [] t \in {PINGREQ, PINGRESP}      -> IF p > e THEN Good(Blank(t, v)) ELSE Rej("left-over")
    [] t = DISCONNECT -> DisconnectBody(v, b, p, e)
    [] t = AUTH       -> AuthBody(v, b, p, e)

(* ------------------------------- whole packets ------------------------- *)
Verdict(st, why, need, m) == [st |-> st, why |-> why, need |-> need, m |-> m]

\* rules that can be decided from the first byte
HeaderRule(v, c) ==
  LET t == c \div 16  f == c % 16 IN
  IF ~TypeDefined(t, v) THEN "type"
  ELSE IF t # PUBLISH /\ f # HeaderFlags(t) THEN "flags"
  ELSE IF t = PUBLISH /\ (f \div 2) % 4 = 3 THEN "qos"
  ELSE ""

Parse(v, b) ==
  IF b = << >> THEN Verdict("inc", "empty", 0, << >>)
  ELSE
  LET t == b[1] \div 16
      h == HeaderRule(v, b[1])
      q == ReadVar(b, 2, Len(b))
      need == IF q.k = "ok" THEN 1 + q.l + q.n ELSE 0
  IN
  IF h # "" THEN Verdict("rej", h, need, << >>)
  ELSE IF q.k = "short" THEN Verdict("inc", "header", 0, << >>)
  ELSE IF q.k = "bad"   THEN Verdict(IF Len(b) > 5 THEN "rej" ELSE "open", "remlen", 0, << >>)
  ELSE IF Len(b) < need THEN Verdict("inc", "body", need, << >>)
  ELSE IF Len(b) > need THEN Verdict("long", "", need, << >>)
  ELSE LET r == PacketBody(t, v, b[1] % 16, b, 2 + q.l, Len(b)) IN
       Verdict(IF r.st = "ok" /\ ~Minimal(q) THEN "may" ELSE r.st,
               IF r.st = "ok" /\ ~Minimal(q) THEN "remlen-minimal" ELSE r.why, need, r.m)

(* ----------------------------------- writer ---------------------------- *)
EncValue(i, x) ==
  CASE PropType(i) \in {TByte, TShort, TInt} -> x.a
    [] PropType(i) = TVar -> EncVar(((x.a[1] * 256 + x.a[2]) * 256 + x.a[3]) * 256 + x.a[4])
    [] PropType(i) \in {TString, TBinary}    -> EncLP(x.a)
    [] PropType(i) = TPair                   -> EncLP(x.a) \o EncLP(x.b)

EncProps(pr) ==
  LET body == Flat([k \in 1..Len(pr) |->
                Flat([j \in 1..Len(pr[k].s) |-> << pr[k].i >> \o EncValue(pr[k].i, pr[k].s[j])])])
  IN EncVar(Len(body)) \o body

Bool(c, n) == IF c THEN n ELSE 0

LayoutBody(m) ==
  LET v5 == m.v = 5
      pb == IF v5 THEN EncProps(m.pr) ELSE << >>
  IN
  CASE m.t = CONNECT ->
         LET w == IF m.wl = << >> THEN Blank(PUBLISH, m.v) ELSE m.wl[1]
             hw == m.wl # << >>
         IN EncLP(ProtoName(m.v)) \o << m.v >>
            \o << Bool(m.cl, 2) + Bool(hw, 4) + Bool(hw, 8 * w.fl[2]) + Bool(hw, 32 * w.fl[3])
                  + Bool(m.pf, 64) + Bool(m.uf, 128) >>
            \o Enc16(m.ka) \o pb \o EncLP(m.ci)
            \o (IF hw THEN (IF v5 THEN EncProps(w.pr) ELSE << >>) \o EncLP(w.tp) \o EncLP(w.pl) ELSE << >>)
            \o (IF m.uf THEN EncLP(m.us) ELSE << >>)
            \o (IF m.pf THEN EncLP(m.pw) ELSE << >>)
    [] m.t = CONNACK -> << Bool(m.sp, 1), m.rc >> \o pb
    [] m.t = PUBLISH -> EncLP(m.tp) \o (IF m.fl[2] > 0 THEN Enc16(m.id[1]) ELSE << >>) \o pb \o m.pl
    [] m.t \in Acks  -> Enc16(m.id[1])
                        \o (IF v5 /\ (m.rc # 0 \/ m.pr # << >>)
                            THEN << m.rc >> \o (IF m.pr # << >> THEN pb ELSE << >>) ELSE << >>)
    [] m.t = SUBSCRIBE -> Enc16(m.id[1]) \o pb
                          \o Flat([k \in 1..Len(m.ts) |-> EncLP(m.ts[k].f) \o << m.ts[k].o >>])
    [] m.t = UNSUBSCRIBE -> Enc16(m.id[1]) \o pb \o Flat([k \in 1..Len(m.ts) |-> EncLP(m.ts[k].f)])
    [] m.t = SUBACK  -> Enc16(m.id[1]) \o pb \o m.cs
    [] m.t = UNSUBACK -> Enc16(m.id[1]) \o pb \o (IF v5 THEN m.cs ELSE << >>)
    [] m.t \in {PINGREQ, PINGRESP} -> << >>
    [] m.t = DISCONNECT -> IF v5 /\ (m.rc # 0 \/ m.pr # << >>) THEN << m.rc >> \o pb ELSE << >>
    [] m.t = AUTH    -> << m.rc >> \o pb

HeaderByte(m) == m.t * 16 + (IF m.t = PUBLISH THEN 8 * m.fl[1] + 2 * m.fl[2] + m.fl[3] ELSE HeaderFlags(m.t))

Layout(m) == LET body == LayoutBody(m) IN << HeaderByte(m) >> \o EncVar(Len(body)) \o body

(* -------------------------- what the wire carries of a message --------- *)
\* a repeatable property set to an empty list puts nothing on the wire
Carried(pr) == SelectSeq(pr, LAMBDA e : e.s # << >>)

\* the message a receiver of Layout(m) has
OnWire(m) ==
  LET x == [m EXCEPT !.pr = IF m.v = 5 THEN Carried(m.pr) ELSE << >>,
                     !.id = IF m.t = PUBLISH /\ m.fl[2] = 0 THEN << >> ELSE m.id,
                     !.rc = IF m.t = CONNACK \/ m.v = 5 THEN m.rc ELSE 0,
                     !.cs = IF m.t = UNSUBACK /\ m.v < 5 THEN << >> ELSE m.cs,
                     !.ex = << >>, !.pi = << >>]
  IN IF m.wl = << >> THEN x
     ELSE [x EXCEPT !.wl = << [m.wl[1] EXCEPT !.v = m.v, !.id = << >>, !.ex = << >>, !.pi = << >>,
                                              !.fl = << 0, m.wl[1].fl[2], m.wl[1].fl[3] >>,
                                              !.pr = IF m.v = 5 THEN Carried(m.wl[1].pr) ELSE << >>] >>]

StrFits(s) == Len(s) <= 65535
PropsValid(pr) ==
  \A k \in 1..Len(pr) : \A j \in 1..Len(pr[k].s) :
    LET x == pr[k].s[j] IN
    /\ PropType(pr[k].i) \in {TString, TPair, TBinary} => StrFits(x.a) /\ StrFits(x.b)
    /\ PropType(pr[k].i) \in {TString, TPair} => ValidUtf8(x.a) /\ ValidUtf8(x.b)

HasProp(m, i) == \E k \in 1..Len(m.pr) : m.pr[k].i = i

\* the encoder has to refuse it
MustRefuse(m) ==
  \/ m.t \in IdTypes /\ m.id = << >>
  \/ m.t = PUBLISH /\ m.fl[2] > 0 /\ m.id = << >>
  \/ m.t = PUBLISH /\ m.fl[2] = 0 /\ m.fl[1] = 1
  \/ m.t = CONNECT /\ m.v < 5 /\ m.pf /\ ~m.uf

\* field values are valid for type and version: it has to encode
Encodable(m) ==
  /\ ~MustRefuse(m)
  /\ m.t = AUTH => m.v = 5
  /\ m.v = 5 => PropsValid(m.pr)
  /\ CASE m.t = CONNECT ->
            /\ ClientId(m.ci) /\ StrFits(m.ci) /\ StrFits(m.us) /\ StrFits(m.pw) /\ ValidUtf8(m.us)
            /\ m.v < 5 => (m.ci # << >> \/ m.cl)
            /\ m.wl # << >> =>
                 LET w == m.wl[1] IN
                 /\ TopicName(w.tp) /\ w.tp # << >> /\ StrFits(w.tp) /\ StrFits(w.pl)
                 /\ m.v = 5 => PropsValid(w.pr) /\ \A i \in WillForbidden : ~HasProp(w, i)
       [] m.t = PUBLISH ->
            /\ TopicName(m.tp) /\ StrFits(m.tp)
            /\ m.tp = << >> => m.v = 5 /\ GetProp(m, 35) # << >> /\ GetProp(m, 35)[1].a # << 0, 0 >>
            /\ m.v = 5 => \A i \in PublishForbidden : ~HasProp(m, i)
       [] m.t \in Acks \cup {DISCONNECT} -> m.v = 5 => m.rc \in TypeCodes(m.t)
       [] m.t \in {CONNACK, AUTH} -> m.rc \in TypeCodes(m.t)
       [] m.t \in {SUBSCRIBE, UNSUBSCRIBE} ->
            /\ m.ts # << >>
            /\ \A k \in 1..Len(m.ts) : StrFits(m.ts[k].f)
            /\ m.t = SUBSCRIBE => \A k \in 1..Len(m.ts) : m.ts[k].o < (IF m.v = 5 THEN 64 ELSE 4)
       [] m.t \in {SUBACK, UNSUBACK} ->
            (m.t = UNSUBACK /\ m.v < 5) \/ \A k \in 1..Len(m.cs) : m.cs[k] \in WireCodes(m.t, m.v)
       [] OTHER -> TRUE
=============================================================================
