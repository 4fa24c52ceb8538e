------------------------------- MODULE MCPacket ----------------------------
(***************************************************************************)
(* A sender that writes a packet of type T field by field, as the figures  *)
(* of the MQTT documents give them, and makes at most one mistake. It says *)
(* what it means (m) and which mistake it made (bad); the reader of the    *)
(* specification has to understand the packet as it was meant, or refuse   *)
(* it. This is a second description of the format: the reader (Wire) works *)
(* on bytes, this one on fields.                                           *)
(***************************************************************************)
EXTENDS Wire, TLC, Json

CONSTANTS T, V, Emit,
          Deep,     \* more values
          Rich      \* fields that are not written in the plainest way

VARIABLES h, b, m, bad, todo, left
vars == << h, b, m, bad, todo, left >>

A == << 97 >>
Alt(bytes, err, m1, more) == [b |-> bytes, bad |-> err, m |-> m1, more |-> more, end |-> FALSE]
Fine(bytes, m1)  == Alt(bytes, "", m1, << >>)
Wrong(bytes, err) == Alt(bytes, err, m, << >>)
\* the packet ends inside the field
Cut(bytes) == [Alt(bytes, "cut", m, << >>) EXCEPT !.end = TRUE]
More(bytes, m1, fs) == Alt(bytes, "", m1, fs)

Cuts(field) == {Cut(SubSeq(field, 1, k)) : k \in 0..(Len(field) - 1)}
LP(s) == EncLP(s)

BadUtf == {<< 255 >>, << 195 >>, << 237, 160, 128 >>, << 192, 128 >>}
\* text MQTT forbids: invalid UTF-8
BadText == {Wrong(LP(s), "utf8") : s \in BadUtf}

(* ------------------------------ property blocks ------------------------ *)
\* one property: its bytes and what it means
P1(i, x) == [i |-> i, x |-> x, b |-> << i >> \o EncValue(i, x)]
S(s) == Val("str", s, << >>)
N8(n) == Val("u8", << n >>, << >>)
N16(n) == Val("u16", Enc16(n), << >>)
N32(n) == Val("u32", Enc32(n), << >>)
Pr(k, v) == Val("pair", k, v)

User1 == P1(38, Pr(A, << 98 >>))
User2 == P1(38, Pr(A, << >>))

\* properties a packet of this type may have (w: a will)
Mine(w) ==
  (CASE T = CONNECT /\ w -> {P1(24, N32(1)), P1(1, N8(1)), P1(3, S(A)), P1(8, S(A)), P1(2, N32(9)),
                             P1(9, Val("bin", << 255 >>, << >>))}
     [] T = CONNECT -> {P1(17, N32(7)), P1(33, N16(1)), P1(39, N32(1)), P1(34, N16(0)), P1(25, N8(1)), P1(23, N8(0)), P1(21, S(A))}
     [] T = CONNACK -> {P1(17, N32(0)), P1(33, N16(9)), P1(36, N8(1)), P1(37, N8(0)), P1(39, N32(65536)), P1(18, S(A)), P1(34, N16(1)),
                        P1(31, S(<< >>)), P1(40, N8(1)), P1(41, N8(1)), P1(42, N8(0)), P1(19, N16(0)), P1(26, S(A)), P1(28, S(A)), P1(21, S(A))}
     [] T = PUBLISH -> {P1(1, N8(0)), P1(2, N32(0)), P1(35, N16(1)), P1(8, S(A)), P1(9, Val("bin", << 0 >>, << >>)), P1(3, S(A)),
                        P1(11, N32(1)), P1(11, N32(128))}
     [] T = SUBSCRIBE -> {P1(11, N32(1)), P1(11, N32(268435455))}
     [] T = UNSUBSCRIBE -> {}
     [] T = DISCONNECT -> {P1(17, N32(2)), P1(31, S(A)), P1(28, S(A))}
     [] T = AUTH -> {P1(21, S(A)), P1(31, S(A))}
     [] OTHER -> {P1(31, S(A)), P1(31, S(<< 195, 164 >>))})
  \cup {User1, User2}

\* sequences of them that are allowed
Rep(i) == i = 38 \/ (i = 11 /\ T = PUBLISH)
Lists(w) ==
  {<< >>} \cup {<< p >> : p \in Mine(w)}
  \cup {pq \in Mine(w) \X (IF T = CONNECT /\ ~Deep THEN {User1} ELSE Mine(w)) : pq[1].i # pq[2].i \/ Rep(pq[1].i)}
  \cup (IF Deep /\ T # CONNECT THEN {pqr \in Mine(w) \X Mine(w) \X Mine(w) :
                        \A j, k \in 1..3 : j # k => (pqr[j].i # pqr[k].i \/ Rep(pqr[j].i))} ELSE {})
Bytes(ps) == Flat([k \in 1..Len(ps) |-> ps[k].b])
Block(ps) == LET x == Bytes(ps) IN EncVar(Len(x)) \o x

\* grouped by number, in the order of numbers
Meant(ps) ==
  LET nums == SelectSeq(PropOrder, LAMBDA i : \E k \in 1..Len(ps) : ps[k].i = i) IN
  [k \in 1..Len(nums) |->
     LET mine == SelectSeq(ps, LAMBDA p : p.i = nums[k]) IN
     [i |-> nums[k], s |-> [j \in 1..Len(mine) |-> mine[j].x]]]

Raw(x) == EncVar(Len(x)) \o x
\* blocks that break a rule of 5.0
WrongBlocks(w) ==
  LET few == {<< >>, << User1 >>} \cup {<< p >> : p \in Mine(w)} IN
  {Wrong(Raw(Bytes(ps) \o Bytes(ps)), "twice") : ps \in {<< p >> : p \in {q \in Mine(w) : ~Rep(q.i)}}}
  \cup {Wrong(Raw(Bytes(ps) \o User1.b \o Bytes(ps)), "twice") : ps \in {<< p >> : p \in {q \in Mine(w) : ~Rep(q.i)}}}
  \cup {Wrong(Raw(Bytes(<< User1 >>) \o << i >> \o x), "foreign") :
          i \in ({0, 4, 36, 127} \cup (IF T = CONNECT /\ w THEN {35, 17} ELSE IF T = PUBLISH THEN {24, 31}
                                       ELSE IF T = CONNECT THEN {1, 24, 31} ELSE {35, 24}))
                \ (IF T = CONNACK THEN {36} ELSE {}), x \in {<< 0, 1 >>}}
  \cup {Wrong(Raw(<< 166, 0 >> \o LP(A) \o LP(A)), "long number")}
  \cup {Wrong(Raw(<< 38 >> \o LP(s) \o LP(A)), "utf8") : s \in BadUtf}
  \cup {Wrong(Raw(<< 38 >> \o LP(A) \o LP(s)), "utf8") : s \in BadUtf}
  \* the block ends inside a property
  \cup {Wrong(Raw(SubSeq(Bytes(ps), 1, k)), "block cut") : ps \in {<< User1 >>}, k \in 1..(Len(User1.b) - 1)}
  \cup UNION {{Wrong(Raw(SubSeq(p.b, 1, k)), "block cut") : k \in 1..(Len(p.b) - 1)} : p \in Mine(w)}
  \* its length is written in more bytes than needed
  \cup {Wrong(<< 128 + Len(Bytes(ps)), 0 >> \o Bytes(ps), "long length") : ps \in few}
  \cup {Wrong(<< 255, 255, 255, 255, 1 >>, "length"), Wrong(<< 255, 255, 255, 127 >>, "beyond")}
  \cup {[Alt(<< Len(Bytes(ps)) + 1 >> \o Bytes(ps), "beyond", m, << >>) EXCEPT !.end = TRUE] : ps \in few}

PropField(w) ==
  IF V < 5 THEN {}
  ELSE {Fine(Block(ps), IF w THEN [m EXCEPT !.wl[1].pr = Meant(ps)] ELSE [m EXCEPT !.pr = Meant(ps)]) : ps \in Lists(w)}
       \cup WrongBlocks(w)

(* ---------------------------------- fields ----------------------------- *)
Id == {Fine(Enc16(n), [m EXCEPT !.id = << n >>]) : n \in {1, 258, 65535}} \cup Cuts(<< 0, 1 >>)

\* some of the codes where all would be too many
Some(cs) == IF Deep THEN cs ELSE cs \cap {0, 1, 16, 24, 129, 135, 146, 159}

\* a reason code that may be followed by properties, or by nothing
Code(cs, follow) ==
  {More(<< c >>, [m EXCEPT !.rc = c], follow) : c \in cs}
  \cup {Wrong(<< c >>, "code") : c \in {3, 127, 163, 255, 25} \ TypeCodes(T)}

ConnectFlags ==
  LET F(c, w, q, r, p, u, x) == << 2 * c + 4 * w + 8 * q + 32 * r + 64 * p + 128 * u + x >>
      After(w, u, p) == << "keep" >> \o (IF V = 5 THEN << "props" >> ELSE << >>) \o << "client" >>
                        \o (IF w = 1 THEN (IF V = 5 THEN << "wprops" >> ELSE << >>) \o << "wtopic", "wpay" >> ELSE << >>)
                        \o (IF u = 1 THEN << "user" >> ELSE << >>) \o (IF p = 1 THEN << "pass" >> ELSE << >>)
      Mean(c, w, q, r, p, u) ==
        [m EXCEPT !.cl = c = 1, !.uf = u = 1, !.pf = p = 1,
                  !.wl = IF w = 1 THEN << [Blank(PUBLISH, V) EXCEPT !.fl = << 0, q, r >>] >> ELSE << >>]
      B == 0..1
  IN {More(F(x[1], 0, 0, 0, x[2], x[3], 0), Mean(x[1], 0, 0, 0, x[2], x[3]), After(0, x[3], x[2]))
        : x \in {y \in B \X B \X B : V = 5 \/ y[2] <= y[3]}}
     \cup {More(F(x[1], 1, x[4], x[5], x[2], x[3], 0), Mean(x[1], 1, x[4], x[5], x[2], x[3]), After(1, x[3], x[2]))
             : x \in {y \in B \X B \X B \X (0..2) \X B : (V = 5 \/ y[2] <= y[3]) /\ (Deep \/ y[4] + y[5] \in {0, 3})}}
     \cup {Alt(F(1, 0, 0, 0, 0, 0, 1), "reserved", Mean(1, 0, 0, 0, 0, 0), After(0, 0, 0)),
           Alt(F(1, 1, 1, 0, 1, 1, 1), "reserved", Mean(1, 1, 1, 0, 1, 1), After(1, 1, 1)),
           Alt(F(1, 1, 3, 0, 0, 0, 0), "will qos", Mean(1, 1, 2, 0, 0, 0), After(1, 0, 0)),
           Alt(F(1, 0, 3, 0, 0, 0, 0), "will qos", Mean(1, 0, 0, 0, 0, 0), After(0, 0, 0)),
           Alt(F(1, 0, 1, 0, 0, 0, 0), "will flags", Mean(1, 0, 0, 0, 0, 0), After(0, 0, 0)),
           Alt(F(1, 0, 2, 1, 0, 1, 0), "will flags", Mean(1, 0, 0, 0, 0, 1), After(0, 1, 0)),
           Alt(F(0, 0, 0, 1, 0, 0, 0), "will flags", Mean(0, 0, 0, 0, 0, 0), After(0, 0, 0))}
     \cup (IF V < 5 THEN {Alt(F(1, 0, 0, 0, 1, 0, 0), "password", Mean(1, 0, 0, 0, 1, 0), After(0, 0, 1))} ELSE {})
     \cup {Cut(<< >>)}

Filter(s, r, g, d, o) == [f |-> s, r |-> r, s |-> g, d |-> d, o |-> o]
Share(s) == SharePrefix \o << 47, 103, 47 >> \o s
Sys(s) == << 36, 83, 47 >> \o s
Filters(o) == {Filter(A, A, << >>, << >>, o), Filter(<< 35 >>, << 35 >>, << >>, << >>, o),
               Filter(<< 43, 47, 35 >>, << 43, 47, 35 >>, << >>, << >>, o),
               Filter(Share(A), A, << 103 >>, SharePrefix, o), Filter(Sys(<< 43 >>), Sys(<< 43 >>), << >>, << 36, 83 >>, o)}
WrongFilters == {<< 97, 43 >>, << 35, 97 >>, << 97, 35 >>, << >>, SharePrefix \o << 47, 103 >>, SharePrefix \o << 47, 47, 97 >>,
                 SharePrefix \o << 47, 43, 47, 97 >>, Share(<< >>), Share(<< 97, 35 >>)} \cup BadUtf
Options == IF T # SUBSCRIBE THEN {<< >>} ELSE IF V = 5 THEN {<< 0 >>, << 26 >>, << 34 >>} ELSE {<< 0 >>, << 1 >>, << 2 >>}
WrongOptions == IF T # SUBSCRIBE THEN {} ELSE {<< 3 >>, << 64 >>, << 128 >>} \cup (IF V = 5 THEN {} ELSE {<< 4 >>, << 16 >>})

\* k topics still to come
Entry(k) ==
  {More(LP(x[1].f) \o x[2], [m EXCEPT !.ts = Append(m.ts, [x[1] EXCEPT !.o = IF x[2] = << >> THEN 0 ELSE x[2][1]])],
        IF j = 0 THEN << >> ELSE << "topic" >>) : x \in Filters(0) \X Options, j \in (IF k > 1 THEN 0..1 ELSE {0})}
  \cup {Wrong(LP(f) \o o, "filter") : f \in WrongFilters, o \in {CHOOSE o \in Options : TRUE}}
  \cup {Wrong(LP(A) \o o, "options") : o \in WrongOptions}
  \cup (IF Len(m.ts) > 0 THEN Cuts(LP(A) \o (CHOOSE o \in Options : TRUE)) \ {Cut(<< >>)} ELSE Cuts(LP(A) \o (CHOOSE o \in Options : TRUE)))

WireCode == WireCodes(T, V)
CodeList ==
  LET some == {0} \cup {c \in WireCode : c \in {1, 2, 17, 128, 135, 158}} IN
  {Fine(<< c >>, [m EXCEPT !.cs = << c >>]) : c \in WireCode}
  \cup {Fine(x, [m EXCEPT !.cs = x]) : x \in some \X some}
  \cup {Wrong(<< 0, c >>, "code") : c \in {3, 4, 16, 127, 129, 163, 255} \ WireCode}
  \cup {Wrong(<< c, 0 >>, "code") : c \in {3, 127, 255}}

Choices(f) ==
  CASE f = "proto" ->
         {Fine(LP(ProtoName(V)) \o << V >>, m)}
         \cup {Wrong(LP(ProtoName(V)) \o << x >>, "version") : x \in {0, 2, 6, 132, 255, IF V = 3 THEN 4 ELSE 3}}
         \cup {Wrong(LP(x) \o << V >>, "name") : x \in {ProtoName(IF V = 3 THEN 4 ELSE 3), << >>, << 109, 113, 116, 116 >>, << 77, 81, 84, 84, 0 >>}}
         \cup Cuts(LP(ProtoName(V)) \o << V >>)
    [] f = "flags"  -> ConnectFlags
    [] f = "keep"   -> {Fine(Enc16(n), [m EXCEPT !.ka = n]) : n \in {0, 258}} \cup Cuts(<< 0, 0 >>)
    [] f = "props"  -> PropField(FALSE)
    [] f = "wprops" -> PropField(TRUE)
    [] f = "client" ->
         {Fine(LP(s), [m EXCEPT !.ci = s]) : s \in {x \in {A, << >>} : x # << >> \/ (V = 4 /\ m.cl) \/ V = 5}}
         \cup (IF V < 5 /\ ~m.cl THEN {Wrong(LP(<< >>), "client")} ELSE {})
         \cup BadText \cup Cuts(LP(A))
    [] f = "wtopic" -> {Fine(LP(s), [m EXCEPT !.wl[1].tp = s]) : s \in {A, << 36, 47 >>}}
                       \cup {Wrong(LP(s), "topic") : s \in {<< 43 >>, << 97, 47, 35 >>, << 97, 0 >>, << 127 >>}} \cup BadText \cup Cuts(LP(A))
    [] f = "wpay"   -> {Fine(LP(s), [m EXCEPT !.wl[1].pl = s]) : s \in {<< >>, << 0, 255 >>}} \cup Cuts(LP(A))
    [] f = "user"   -> {Fine(LP(s), [m EXCEPT !.us = s]) : s \in {<< >>, A}} \cup BadText \cup Cuts(LP(A))
    [] f = "pass"   -> {Fine(LP(s), [m EXCEPT !.pw = s]) : s \in {<< >>, << 255, 0 >>}} \cup Cuts(LP(A))
    [] f = "id"     -> Id
    [] f = "ack"    -> {Fine(<< >>, m)}
                       \cup (IF V < 5 THEN {Wrong(<< 0 >>, "extra"), Wrong(<< 0, 0 >>, "extra")}
                             ELSE Code(TypeCodes(T), << >>) \cup Code(Some(TypeCodes(T)), << "props", "end" >>))
    [] f = "session" -> {Fine(<< n >>, [m EXCEPT !.sp = n = 1]) : n \in (IF V = 3 THEN {0} ELSE {0, 1})} \cup {Wrong(<< n >>, "reserved") : n \in {2, 3, 128, 255}}
                        \cup {Cut(<< >>)}
    [] f = "concode" -> LET ok == IF m.sp THEN {0} ELSE IF V = 5 THEN Some(TypeCodes(T)) ELSE TypeCodes(T) IN
                        {Fine(<< c >>, [m EXCEPT !.rc = c]) : c \in ok} \cup {Wrong(<< c >>, "code") : c \in {6, 127, 139, 163, 255}} \cup {Cut(<< >>)}
    [] f = "ptopic" -> {Fine(LP(s), [m EXCEPT !.tp = s]) : s \in {A, << 47 >>, << 36, 195, 164 >>}}
                       \cup {Wrong(LP(s), "topic") : s \in {<< 43 >>, << 97, 47, 35 >>, << 97, 0 >>, << 194, 133 >>}} \cup BadText \cup Cuts(LP(A))
                       \cup {Wrong(LP(<< >>), "no topic")}
    [] f = "pay"    -> {Fine(s, [m EXCEPT !.pl = s]) : s \in {<< >>, A, << 0, 0 >>}}
    [] f = "topic"  -> Entry(2 - Len(m.ts))
    [] f = "codes"  -> IF T = UNSUBACK /\ V < 5 THEN {Fine(<< >>, m)} ELSE CodeList
    [] f = "discon" -> {Fine(<< >>, m)}
                       \cup (IF V < 5 THEN {Wrong(<< 0 >>, "extra")}
                             ELSE Code(Some(TypeCodes(T)), << "props", "end" >>))
    [] f = "end"    -> {Fine(<< >>, m)} \cup (IF T \in {PUBLISH, SUBSCRIBE, UNSUBSCRIBE, SUBACK, UNSUBACK} THEN {} ELSE {Wrong(<< 0 >>, "extra")})

Start ==
  CASE T = CONNECT -> << "proto", "flags" >>
    [] T = CONNACK -> << "session", "concode" >> \o (IF V = 5 THEN << "props" >> ELSE << >>)
    [] T \in Acks  -> << "id", "ack" >>
    [] T \in {SUBSCRIBE, UNSUBSCRIBE} -> << "id" >> \o (IF V = 5 THEN << "props" >> ELSE << >>) \o << "topic" >>
    [] T \in {SUBACK, UNSUBACK} -> << "id" >> \o (IF V = 5 THEN << "props" >> ELSE << >>) \o << "codes" >>
    [] T \in {DISCONNECT, AUTH} -> << "discon" >>
    [] OTHER -> << >>

\* first byte: flags, whether they are wrong, fields that follow
Headers ==
  IF T # PUBLISH
  THEN {[h |-> f, bad |-> IF f = HeaderFlags(T) THEN "" ELSE "flags", fl |-> << 0, 0, 0 >>, todo |-> Start \o (IF T \in Acks \cup {DISCONNECT, AUTH} THEN << >> ELSE << "end" >>)] : f \in 0..15}
  ELSE {[h |-> 8 * d + 2 * q + r,
         bad |-> IF q = 3 THEN "qos" ELSE IF q = 0 /\ d = 1 THEN "dup" ELSE "",
         fl |-> << d, q, r >>,
         todo |-> << "ptopic" >> \o (IF q > 0 THEN << "id" >> ELSE << >>) \o (IF V = 5 THEN << "props" >> ELSE << >>) \o << "pay" >>]
          : d \in 0..1, q \in 0..3, r \in 0..1}

Init == \E x \in Headers :
          /\ h = x.h /\ bad = x.bad /\ todo = x.todo /\ b = << >> /\ left = Rich
          /\ m = [Blank(T, V) EXCEPT !.fl = x.fl]

Whole == << T * 16 + h >> \o EncVar(Len(b)) \o b

\* one way to write a field is plain; the flags of CONNECT may be any
PlainBytes(f) ==
  CASE f = "proto" -> LP(ProtoName(V)) \o << V >>
    [] f \in {"keep", "wpay", "user", "pass"} -> << 0, 0 >>
    [] f \in {"props", "wprops", "session", "concode"} -> << 0 >>
    [] f = "id" -> << 0, 1 >>
    [] f \in {"client", "wtopic", "ptopic"} -> LP(A)
    [] f = "topic" -> LP(A) \o (IF T = SUBSCRIBE THEN << 0 >> ELSE << >>)
    [] f = "codes" -> IF T = UNSUBACK /\ V < 5 THEN << >> ELSE << 0 >>
    [] OTHER -> << >>
Cost(a, f) == IF a.bad = "" /\ ~a.end /\ (f = "flags" \/ a.b = PlainBytes(f)) THEN 0 ELSE 1

Next ==
  /\ todo # << >>
  /\ \E a \in Choices(Head(todo)) :
       /\ bad = "" \/ a.bad = ""
       /\ left >= Cost(a, Head(todo))
       /\ left' = left - Cost(a, Head(todo))
       /\ b' = b \o a.b
       /\ m' = a.m
       /\ bad' = IF bad = "" THEN a.bad ELSE bad
       /\ todo' = IF a.end THEN << >> ELSE a.more \o Tail(todo)
       /\ UNCHANGED h
       /\ (Emit /\ todo' = << >>) => PrintT("P " \o ToJson([b |-> Whole', bad |-> bad']))
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------------ *)
Finished == todo = << >>
\* PUBLISH without topic: fine when it has an alias
NoTopic == T = PUBLISH /\ bad = "no topic" /\ V = 5
P == Parse(V, Whole)

Understood == Finished /\ bad = "" => P.st = "ok" /\ P.m = m
Refused == Finished /\ bad # "" =>
             IF NoTopic /\ HasProp(m, 35) THEN P.st = "ok" ELSE P.st = "rej"
\* nothing shorter or longer is a packet
Framed == Finished => /\ \A k \in 0..(Len(Whole) - 1) : bad = "" => Parse(V, SubSeq(Whole, 1, k)).st = "inc"
                      /\ bad = "" => Parse(V, Whole \o << 0 >>).st = "long"
\* what is understood can be written again and means the same
Rewritten == Finished /\ bad = "" =>
               LET x == Layout(P.m)  q == Parse(V, x) IN q.st = "ok" /\ q.m = P.m /\ Encodable(P.m)
=============================================================================
