-------------------------------- MODULE MCMsg ------------------------------
(***************************************************************************)
(* Bounded model of one message object of type T under every sequence of   *)
(* calls of the API over a small alphabet (Cfg chooses it). The laws say   *)
(* what any history of calls has to keep; they are checked in every state  *)
(* for every call that can be made there. With Emit every transition is    *)
(* printed: the calls are then made on the real code along tours through   *)
(* the whole graph.                                                        *)
(***************************************************************************)
EXTENDS Msg, TLC, Json

CONSTANTS T, Cfg, Emit, Deep    \* Deep: larger alphabet

VARIABLE m
vars == << m >>

(* -------------------------------- alphabets ---------------------------- *)
A   == << 97 >>                        \* a
K   == << 107 >>
BadText  == << 255 >>
Ctrl     == << 97, 1 >>
Later    == << 0, 0, 0, 0, 244, 134, 87, 0, 0, 0, 0, 0 >>       \* 2100
LocalId  == << 0, 0, 0, 1, 255, 0, 0, 7 >>
Past     == << 0, 0, 0, 0, 0, 0, 0, 1, 29, 205, 101, 0 >>       \* 1970, half a second
PlusSign == << 97, 43 >>
ShareF   == SharePrefix \o << 47, 103, 47, 97, 47, 35 >>    \* $share/g/a/#

U8(n)   == Val("u8", << n >>, << >>)
U16v(n) == Val("u16", Enc16(n), << >>)
U32(n)  == Val("u32", Enc32(n), << >>)
Str(s)  == Val("str", s, << >>)
Bin(s)  == Val("bin", s, << >>)
Pair(k, v) == Val("pair", k, v)

Ver(vs)  == {[op |-> "ver", v |-> v] : v \in vs}
Num(o, ns) == {[op |-> o, n |-> n] : n \in ns}
Txt(o, ss) == {[op |-> o, a |-> s] : s \in ss}
PSet(i, g, s) == [op |-> "pset", i |-> i, g |-> g, s |-> s]
PDis == {[op |-> "pdis"]}

\* user properties: one, two equal names, another order, none, and wrong kinds
UserProps ==
  {PSet(38, "pair", << Pair(K, A) >>),
   PSet(38, "pairs", << Pair(K, A), Pair(K, K) >>),
   PSet(38, "pairs", << >>),
   PSet(38, "str", << Str(A) >>)}

\* a scalar of each packet type that has one
OwnProps ==
  CASE T = CONNECT -> {PSet(33, "u16", << U16v(10) >>), PSet(33, "u32", << U32(1) >>)}
    [] T = CONNACK -> {PSet(36, "u8", << U8(1) >>), PSet(18, "str", << Str(A) >>), PSet(36, "u8", << U8(0) >>)}
    [] T = PUBLISH -> {PSet(35, "u16", << U16v(1) >>), PSet(11, "u32", << U32(1) >>),
                       PSet(11, "u32s", << U32(128), U32(2) >>), PSet(11, "u32", << U32(268435456) >>),
                       PSet(8, "str", << Str(A) >>), PSet(1, "u8", << U8(1) >>), PSet(9, "bin", << Bin(A) >>)}
    [] T \in Acks \cup {SUBACK, UNSUBACK} -> {PSet(31, "str", << Str(A) >>), PSet(31, "str", << Str(<< >>) >>)}
    [] T = SUBSCRIBE -> {PSet(11, "u32", << U32(127) >>), PSet(11, "u32", << U32(128) >>),
                         PSet(11, "u32s", << U32(1), U32(2) >>)}
    [] T = DISCONNECT -> {PSet(31, "str", << Str(A) >>), PSet(17, "u32", << U32(1) >>)}
    [] T = AUTH -> {PSet(21, "str", << Str(A) >>), PSet(22, "bin", << Bin(A) >>)}
    [] OTHER -> {}

\* ids that do not belong there
ForeignProps == {PSet(i, "u8", << U8(1) >>) : i \in {36, 0, 43, 200}}

PropCalls == UserProps \cup OwnProps \cup ForeignProps \cup PDis \cup Ver({4, 5})

\* wills: fine; fine with properties, DUP and an expiry; no payload
Wills ==
  << [Blank(PUBLISH, 5) EXCEPT !.tp = A, !.pl = K, !.fl = << 0, 1, 0 >>],
     [Blank(PUBLISH, 5) EXCEPT !.tp = << 97, 47, 98 >>, !.pl = A, !.fl = << 0, 2, 1 >>,
                               !.pr = << [i |-> 24, s |-> << U32(5) >>], [i |-> 38, s |-> << Pair(K, A) >>] >>],
     [Blank(PUBLISH, 4) EXCEPT !.tp = A] >>
WillCalls == {[op |-> "will", w |-> k] : k \in 0..3} \cup {[op |-> "rwill"]}

Cred(u, p) == [op |-> "cred", a |-> u, b |-> p]
Creds3 == {Cred(<< >>, << >>), Cred(A, << >>), Cred(A, K), Cred(<< >>, K), Cred(BadText, K)}

SetP(tp, pl, q, r, d) == [op |-> "set", a |-> tp, b |-> pl, q |-> q, e |-> r, d |-> d]

Alphabet ==
  CASE Cfg = "props" -> PropCalls
    [] Cfg = "connect" -> Ver(Versions) \cup Num("cl", {0, 1}) \cup Txt("ci", {<< >>, A, PlusSign}) \cup Creds3
                          \cup {[op |-> "will", w |-> k] : k \in {0, 1, 3}} \cup {[op |-> "rwill"]}
                          \cup (IF Deep THEN Num("ka", {0, 258}) ELSE {})
    [] Cfg = "wills"   -> Ver({4, 5}) \cup Num("ka", {0, 258}) \cup WillCalls \cup UserProps \cup PDis
                          \cup (IF Deep THEN OwnProps \cup {Cred(A, K), Cred(<< >>, << >>)} ELSE {})
    [] Cfg = "publish" -> {SetP(A, K, 0, 0, 1), SetP(K, << >>, 1, 1, 0), SetP(A, K, 3, 1, 1), SetP(PlusSign, A, 2, 1, 1)}
                          \cup Num("dup", {0, 1}) \cup Num("ret", {0, 1}) \cup Num("qos", {0, 1, 2, 3, 129})
                          \cup Txt("top", {<< >>, A, PlusSign}) \cup Txt("pay", {<< >>, K}) \cup Num("id", {1})
                          \cup Ver({4, 5}) \cup {[op |-> "clone", v |-> v] : v \in {4, 5}}
                          \cup (IF Deep THEN Num("id", {65535}) ELSE {})
    [] Cfg = "expiry"  -> Txt("exp", {<< >>, Later, Past}) \cup Txt("pid", {<< >>, LocalId}) \cup Ver({4, 5}) \cup {[op |-> "clone", v |-> v] : v \in {4, 5}}
                          \cup {SetP(A, K, 1, 0, 0), PSet(38, "pair", << Pair(K, A) >>), PSet(2, "u32", << U32(7) >>)} \cup PDis
                          \cup Num("id", {3}) \cup Num("qos", {0}) \cup Num("dup", {1})
    [] Cfg = "pubprops" -> OwnProps \cup UserProps \cup PDis \cup Ver({4, 5}) \cup {[op |-> "clone", v |-> v] : v \in {4, 5}}
                           \cup Txt("top", {<< >>, A})
    [] Cfg = "ids"     -> Num("id", {0, 1, 255, 256, 65535}) \cup Ver(Versions)
                          \cup (IF T = PUBLISH THEN Num("qos", {0, 1, 2}) \cup Txt("top", {A}) \cup Num("dup", {0, 1})
                                ELSE IF T \in {SUBSCRIBE, UNSUBSCRIBE} THEN {[op |-> "topic", a |-> A, q |-> 0]}
                                ELSE IF T \in {SUBACK, UNSUBACK} THEN {[op |-> "codes", cs |-> << 0 >>]}
                                ELSE Num("rc", {0, 16, 146}))
                          \cup {PSet(38, "pair", << Pair(K, A) >>)}
    [] Cfg = "codes"   -> (IF T \in {SUBACK, UNSUBACK}
                           THEN {[op |-> "codes", cs |-> c] : c \in {<< 0 >>, << 128, 1 >>, << 17 >>, << 135, 0 >>, << 0, 255 >>, << >>}}
                           ELSE Num("rc", {0, 1, 4, 5, 6, 16, 24, 128, 130, 142, 146, 153, 162, 255}))
                          \cup Ver(Versions) \cup {PSet(38, "pair", << Pair(K, A) >>)} \cup PDis
                          \cup (IF T = CONNACK THEN Num("sp", {0, 1}) ELSE {})
                          \cup (IF T \in IdTypes THEN Num("id", {9}) ELSE {})
    [] Cfg = "topics"  -> {[op |-> "topic", a |-> f, q |-> q] : f \in {A, ShareF, << 97, 47, 43 >>}, q \in {0, 1}}
                          \cup {[op |-> "topic", a |-> f, q |-> 2] : f \in {PlusSign, << >>, SharePrefix \o << 47 >>}}
                          \cup {[op |-> "topic", a |-> A, q |-> q] : q \in (IF T = SUBSCRIBE THEN {3, 44, 64} ELSE {})}
                          \cup Num("id", {7}) \cup Ver({4, 5}) \cup {PSet(38, "pair", << Pair(K, A) >>)}

\* lists stay short
Room(c) ==
  CASE c.op = "topic" -> Len(m.ts) < (IF Deep THEN 3 ELSE 2)
    [] c.op = "codes" -> Len(m.cs) + Len(c.cs) <= (IF Deep THEN 4 ELSE 3)
    [] OTHER -> TRUE
Calls == {c \in Alphabet : c.op = "clone" \/ Has(T, c.op)}

Will(c) == IF c.op = "will" /\ c.w > 0 THEN Wills[c.w] ELSE Blank(0, 0)
Of(x, c) == IF c.op = "clone" THEN Res("yes", CloneOf(x, c.v), {x}) ELSE Outcome(x, c, Will(c))
O(c) == Of(m, c)
Nexts(c) == LET r == O(c) IN (IF r.r \in {"yes", "any"} THEN {r.m1} ELSE {}) \cup (IF r.r \in {"no", "any"} THEN r.m0 ELSE {})

Init == m = New(T, 5)
\* with Emit a transition is printed once: in the state it leaves
Next == \E c \in Calls : Room(c) /\ \E n \in Nexts(c) : /\ m' = n
                                                        /\ Emit => PrintT("E " \o ToJson([s |-> m, c |-> c, d |-> n]))
Spec == Init /\ [][Next]_vars

(* ----------------------------------- laws ------------------------------ *)
Ascending(pr) == \A k \in 1..(Len(pr) - 1) : Before(pr[k].i, pr[k + 1].i)
PropsFine(x) ==
  /\ Ascending(x.pr)
  /\ \A k \in 1..Len(x.pr) :
       /\ PropAllowed(x.pr[k].i, x.t)
       /\ PropRepeats(x.pr[k].i, x.t) \/ Len(x.pr[k].s) = 1
       /\ \A j \in 1..Len(x.pr[k].s) : x.pr[k].s[j].g = ScalarKind(x.pr[k].i)

TypeOK == /\ m.t = T /\ m.v \in Versions
          /\ m.fl[1] \in 0..1 /\ m.fl[2] \in 0..2 /\ m.fl[3] \in 0..1
          /\ ~Wild(m.tp) /\ Text(m.tp)
          /\ PropsFine(m)
          /\ m.wl # << >> => WillOk(m.wl[1])
          /\ (m.us # << >>) = m.uf /\ (m.pw # << >>) = m.pf
          /\ \A k \in 1..Len(m.ts) : ParseFilter(m.ts[k].f).ok

\* what is encoded is one packet, that a receiver understands as it was meant
RoundTrip ==
  Encodable(m) =>
    LET b == Layout(m)  P == Parse(m.v, b) IN
    /\ P.st \in {"ok", "may"}
    /\ P.m = OnWire(m)
    /\ P.why # "remlen-minimal"
    /\ \A k \in 0..(Len(b) - 1) : LET q == Parse(m.v, SubSeq(b, 1, k)) IN q.st = "inc" /\ q.need \in {0, Len(b)}
    /\ LET q == Parse(m.v, b \o << 0 >>) IN q.st = "long" /\ q.need = Len(b)
    /\ (\A k \in 1..Len(m.pr) : m.pr[k].s # << >>) => b = Layout(P.m)

Consistent == MustRefuse(m) => ~Encodable(m)

\* under 3.x nothing of 5.0 is on the wire or shown
NoFive == m.v < 5 => /\ \A i \in PropIds : PropGet(m, i) = << >>
                     /\ Proj(m).pr = << >>
                     /\ Encodable(m) => LET P == Parse(m.v, Layout(m)) IN
                                        P.m.pr = << >> /\ (T # CONNACK => P.m.rc = 0) /\ (T = UNSUBACK => P.m.cs = << >>)

NoIdAtQos0 == T = PUBLISH /\ m.fl[2] = 0 /\ Encodable(m) => Parse(m.v, Layout(m)).m.id = << >>

\* fields a call may change
Touches(op) ==
  CASE op = "ver" -> {"v"}             [] op \in {"pset", "pdis"} -> {"pr"}
    [] op = "id"  -> {"id"}            [] op = "rc" -> {"rc"}
    [] op = "sp"  -> {"sp"}            [] op = "cl" -> {"cl"}
    [] op = "ka"  -> {"ka"}            [] op = "ci" -> {"ci"}
    [] op \in {"will", "rwill"} -> {"wl"}
    [] op = "cred" -> {"uf", "us", "pf", "pw"}
    [] op = "set" -> {"fl", "tp", "pl"}
    [] op \in {"dup", "ret", "qos"} -> {"fl"}
    [] op = "top" -> {"tp"}            [] op = "pay" -> {"pl"}
    [] op = "exp" -> {"ex"}            [] op = "pid" -> {"pi"}
              [] op = "codes" -> {"cs"}
    [] op = "topic" -> {"ts"}
    [] OTHER -> DOMAIN m

Appends(op) == op \in {"topic", "codes"}

Frame == \A c \in Calls :
           \A n \in Nexts(c) : \A f \in DOMAIN m \ Touches(c.op) : n[f] = m[f]

\* a refused call leaves everything as it was
Refusal == \A c \in Calls : LET r == O(c) IN
             r.r # "yes" => /\ m \in r.m0
                            /\ c.op # "codes" => r.m0 = {m}

\* doing it twice is doing it once; the last one counts
Again == \A c \in Calls : ~Appends(c.op) => LET r == O(c) IN
           r.r # "no" => LET q == Of(r.m1, c) IN q.r # "no" /\ q.m1 = r.m1
Bit(op) == op \in {"dup", "ret", "qos"}
Replaces(c, d) == c.op = d.op /\ ~Appends(c.op) /\ (c.op = "pset" => c.i = d.i) /\ c.op \notin {"clone"}
LastWins == \A c, d \in Calls : Replaces(c, d) =>
              LET r == O(c)  q == O(d) IN
              (r.r # "no" /\ q.r # "no") => Of(r.m1, d).m1 = q.m1

\* calls on different fields do not see each other (the version decides what others accept)
Apart(c, d) == /\ c.op \notin {"ver", "clone"} /\ d.op \notin {"ver", "clone"}
               /\ \/ Touches(c.op) \cap Touches(d.op) = {}
                  \/ Bit(c.op) /\ Bit(d.op) /\ c.op # d.op
                  \/ c.op = "pset" /\ d.op = "pset" /\ c.i # d.i
Commute == \A c, d \in Calls : Apart(c, d) =>
             LET r == O(c)  q == O(d) IN
             /\ Of(r.m1, d).r = q.r
             /\ (r.r # "no" /\ q.r # "no") => Of(r.m1, d).m1 = Of(q.m1, c).m1

\* there and back again
VersionBack == \A v \in Versions :
                 LET x == [op |-> "ver", v |-> v]  y == [op |-> "ver", v |-> m.v] IN
                 Of(Of(m, x).m1, y).m1 = m

\* what was set is found, under its number, in order, nothing else
Lookup == \A c \in Calls : c.op = "pset" => LET r == O(c) IN
            r.r # "no" => /\ PropGet(r.m1, c.i) = c.s
                          /\ \A i \in PropIds \ {c.i} : PropGet(r.m1, i) = PropGet(m, i)

Appended == \A c \in Calls :
              /\ c.op = "topic" /\ O(c).r = "yes" => /\ SubSeq(O(c).m1.ts, 1, Len(m.ts)) = m.ts
                                                     /\ Len(O(c).m1.ts) = Len(m.ts) + 1
                                                     /\ O(c).m1.ts[Len(m.ts) + 1].f = c.a
              /\ c.op = "codes" /\ O(c).r = "yes" => O(c).m1.cs = m.cs \o c.cs

CloneLaws == T = PUBLISH => \A v \in {4, 5} :
               LET c == CloneOf(m, v) IN
               /\ CloneOf(c, v) = c
               /\ c.tp = m.tp /\ c.pl = m.pl /\ c.ex = m.ex /\ c.v = v
               /\ c.fl = << 0, m.fl[2], m.fl[3] >> /\ c.id = << >>
               /\ \A k \in 1..Len(c.pr) : c.pr[k].i \in Forwarded /\ \E j \in 1..Len(m.pr) : m.pr[j] = c.pr[k]
               /\ (m.v = 5 /\ v = 5) => \A j \in 1..Len(m.pr) : m.pr[j].i \in Forwarded => \E k \in 1..Len(c.pr) : m.pr[j] = c.pr[k]
               /\ PropsFine(c)
=============================================================================
