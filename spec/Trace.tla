------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded executions of the real code.                     *)
(*                                                                         *)
(* The trace file has one execution per line: ev is the sequence of calls  *)
(* made on the real code, each with its arguments, results and the         *)
(* projection of the message after it. Every step applies the same         *)
(* operators as the bounded models (Outcome, Parse). A step the            *)
(* specification does not allow is reported with the properties it breaks  *)
(* and the rule that failed; the visible part of the state is then taken   *)
(* over from the execution, so that the rest of it is judged too.          *)
(***************************************************************************)
EXTENDS Msg, TLC, Json, IOUtils

CONSTANT TraceFile, Slots

Traces == ndJsonDeserialize(TraceFile)
NTraces == Len(Traces)

VARIABLES tid, l, objs, wire,
          last      \* last[o]: result of the last encode of o, << >> when o changed since
vars == << tid, l, objs, wire, last >>

Nil == Blank(0, 0)
NoWire == [b |-> << >>, base |-> 0, have |-> 0, got |-> 0]

(* --------------------------- reading an observation -------------------- *)
Strip(pr) == [k \in 1..Len(pr) |-> [i |-> pr[k].i, s |-> pr[k].s]]
RawObs(o)  == o @@ [Blank(0, 0) EXCEPT !.wl = << >>]
Obs1(o)    == LET r == RawObs(o) IN [f \in DOMAIN Nil |-> IF f = "pr" THEN Strip(r.pr) ELSE r[f]]
\* calls after which the message was not looked at
Quiet(e)   == "obs" \notin DOMAIN e
Obs(o)     == LET r == Obs1(o) IN [r EXCEPT !.wl = [k \in 1..Len(r.wl) |-> Obs1(r.wl[k])]]

\* the property type reported with each property
TypesOk(o) == LET r == RawObs(o) IN
              /\ \A k \in 1..Len(r.pr) : r.pr[k].t = PropType(r.pr[k].i)
              /\ \A w \in 1..Len(r.wl) : LET q == RawObs(r.wl[w]).pr IN
                                         \A k \in 1..Len(q) : q[k].t = PropType(q[k].i)

\* state to go on with after a step the specification does not allow
Resync(m, ob) ==
  [f \in DOMAIN Nil |->
     IF f = "uf" THEN m.uf \/ ob.us # << >>
     ELSE IF f = "pf" THEN m.pf \/ ob.pw # << >>
     ELSE IF f = "pr" /\ ob.v # 5 THEN m.pr
     ELSE ob[f]]

(* ---------------------------------- verdicts --------------------------- *)
F(c, labs, why) == IF c THEN {} ELSE {[lab |-> labs, why |-> why]}

\* properties a wrong field breaks after a call on the message
CallLab(f) ==
  CASE f \in {"fl", "pl", "pi"} -> {"C14"}
    [] f = "tp"               -> {"C14", "C11"}
    [] f = "id"               -> {"C13"}
    [] f = "pr"               -> {"C07"}
    [] f = "rc"               -> {"C10"}
    [] f = "cs"               -> {"C10", "C23"}
    [] f = "ts"               -> {"C11", "C23"}
    [] f \in {"sp", "cl", "ka", "ci", "us", "pw", "wl"} -> {"C12"}
    [] f = "v"                -> {"C09"}
    [] f = "t"                -> {"C25"}
    [] f = "ex"               -> {"C16"}

\* after decoding
WireLab(f) ==
  CASE f = "id"               -> {"C03", "C13"}
    [] f = "pr"               -> {"C03", "C08"}
    [] f = "wl"               -> {"C03", "C08"}
    [] f = "rc"               -> {"C03", "C10"}
    [] f = "cs"               -> {"C03", "C10", "C23"}
    [] f = "ts"               -> {"C03", "C11", "C23"}
    [] f = "v"                -> {"C03", "C09"}
    [] OTHER                  -> {"C03"}

\* in an encoded packet
EncLab(f) ==
  CASE f \in {"fl"}           -> {"C05", "C14"}
    [] f = "id"               -> {"C05", "C13"}
    [] f = "pr"               -> {"C05", "C07"}
    [] f = "rc"               -> {"C05", "C10"}
    [] f \in {"cl", "ka", "ci", "us", "pw", "uf", "pf"} -> {"C05", "C12"}
    [] f = "wl"               -> {"C05", "C12", "C07"}
    [] f \in {"ts", "cs"}     -> {"C05", "C23"}
    [] f = "v"                -> {"C05", "C09"}
    [] OTHER                  -> {"C05"}

DiffLab(a, b, Lab(_), FS, extra, why) ==
  UNION {F(a[f] = b[f], Lab(f) \cup extra, why \o f) : f \in FS}

\* rule a packet breaks -> properties that demand its refusal
RuleLab(why, v) ==
  CASE why = "type"      -> {"C04", "C09", "C25"}
    [] why = "qos"       -> {"C04", "C14"}
    [] why = "remlen"    -> {"C02", "C04"}
    [] why = "id-cut"    -> {"C04", "C13"}
    [] why = "left-over" -> {"C04"} \cup (IF v < 5 THEN {"C09"} ELSE {})
    [] why = "proto"     -> {"C04", "C09"}
    [] why \in {"connect-reserved", "will-qos", "will-flags", "password-flag", "client-utf8",
                "client-empty", "user-utf8"} -> {"C04", "C12"}
    [] why \in {"will-topic", "topic", "filter"} -> {"C04", "C11"}
    [] why = "code"      -> {"C04", "C10"}
    [] why = "dup-qos0"  -> {"C04", "C14"}
    [] why \in {"sub-qos", "sub-reserved"} -> {"C04", "C23"}
    [] why \in {"prop-cut", "prop-len", "prop-overrun", "prop-utf8"} -> {"C04", "C08"}
    [] why \in {"prop-varint", "prop-id", "prop-dup"} -> {"C08"}
    [] OTHER             -> {"C04"}

X(e) == IF "x" \in DOMAIN e THEN {e.x[k] : k \in 1..Len(e.x)} ELSE {}

(* ------------------------------- decoding ------------------------------ *)
Insufficient(er) == er \in {"data", "empty"}

\* al KiB allocated for a packet of n bytes: at most 1 MiB and 256 times the packet
Proportionate(al, n) == 4 * al <= 4096 + n

\* e.b was given to Decode: er error class, n reported count, nil no message
DecodeFails(e, P) ==
  LET acc == e.er = "ok"
      L   == Len(e.b)
      x   == X(e)
  IN
     F(~e.pan /\ ~e.hang, {"C01"} \cup x, "panic or hang")
  \cup (IF e.pan \/ e.hang THEN {} ELSE
     F(~e.mod, {"C01"}, "input modified")
  \cup F(Proportionate(e.al, L), {"C01"}, "memory out of proportion")
  \cup F(acc => ~e.nil, {"C01", "C03"} \cup x, "accepted without message")
  \cup F(~acc => e.nil, {"C01"} \cup x, "refused with message")
  \cup F(acc => e.n = L, {"C01", "C02"} \cup x, "count of accepted packet")
  \cup (CASE P.st = "ok"   -> F(acc, {"C03"} \cup x
                                     \cup (IF P.m.pr # << >> \/ (P.m.wl # << >> /\ P.m.wl[1].pr # << >>) THEN {"C08"} ELSE {})
                                     \cup (IF P.m.rc # 0 \/ P.m.cs # << >> THEN {"C10"} ELSE {})
                                     \cup (IF Insufficient(e.er) THEN {"C02"} ELSE {}),
                                "well formed packet refused")
          [] P.st = "may"  -> F(~Insufficient(e.er), {"C02"} \cup x, "complete packet reported incomplete")
          [] P.st = "rej"  -> F(~acc, RuleLab(P.why, e.v) \cup x, "accepted: " \o P.why)
                              \cup F(P.need > L \/ ~Insufficient(e.er), {"C02"} \cup x,
                                     "complete packet reported incomplete")
          [] P.st = "inc"  -> F(Insufficient(e.er), {"C02"} \cup x, "prefix not reported incomplete")
                              \cup F(P.need > 0 => e.n = P.need, {"C02"} \cup x, "announced length of prefix")
                              \cup F(P.need = 0 => e.n <= L, {"C02"} \cup x, "length announced too early")
          [] P.st = "open" -> F(~acc, {"C02", "C04"} \cup x, "accepted: " \o P.why)
          [] P.st = "long" -> F(~acc, {"C02", "C04"} \cup x, "accepted with bytes after its end")
                              \cup F(~Insufficient(e.er), {"C02"} \cup x, "complete packet reported incomplete")
                              \cup F(e.n = P.need, {"C02"} \cup x, "announced length of longer buffer")))

DecodedFails(e, P, ob) ==
  IF e.er = "ok" /\ ~e.nil /\ P.st \in {"ok", "may"} /\ ~Quiet(e)
  THEN DiffLab(Proj(P.m), ob, WireLab, Fields, X(e), "decoded ")
       \cup F(TypesOk(e.obs), {"C08"}, "reported property type")
       \cup F(e.rl = e.n - 1 - ReadVar(e.b, 2, Len(e.b)).l, {"C24"} \cup X(e), "remaining length of a decoded packet")
       \cup F(e.hf = HeaderByte(P.m) % 16, {"C03", "C14", "C25"}, "header flags")
  ELSE {}

DecodedState(e, P, ob) ==
  IF e.er # "ok" \/ e.nil THEN Nil
  ELSE IF Quiet(e) THEN IF P.st \in {"ok", "may"} THEN P.m ELSE Nil
  ELSE IF P.st \in {"ok", "may"} /\ Proj(P.m) = ob THEN P.m
  ELSE Resync(IF P.st \in {"ok", "may"} THEN P.m ELSE ob, ob)

(* ------------------------------- encoding ------------------------------ *)
\* e: sz/se Size; L buffer length; er/n Encode; out the n bytes written; un
\* bytes it must not touch are untouched
EncodeFails(e, m, P) ==
  LET x  == X(e)
      ok == e.er = "ok"
  IN
  F(~e.pan, {"C05", "C06"} \cup x, "encode panics")
  \cup (IF e.pan THEN {} ELSE
     F(e.se = "ok", {"C05", "C24"} \cup x, "size of an encodable message refused")
  \cup (IF e.se # "ok" THEN {} ELSE
     F(e.rl + 1 + VarLen(e.rl) = e.sz, {"C24"} \cup x, "reported remaining length")
     \cup
     IF e.L < e.sz
     THEN F(e.er = "buf", {"C06"} \cup x, "short buffer not reported")
          \cup F(e.er = "buf" => e.n = e.sz, {"C06"} \cup x, "short buffer: size not reported")
          \cup F(e.un, {"C06"} \cup x, "short buffer written to")
     ELSE F(ok => e.n = e.sz, {"C06", "C05"} \cup x, "encoded bytes differ from size")
          \cup F(e.un, {"C06"} \cup x, "bytes after the packet changed")
          \cup F(MustRefuse(m) => ~ok,
                 (IF m.t = CONNECT THEN {"C12"}
                  ELSE IF m.t = PUBLISH /\ m.fl[2] = 0 THEN {"C14"} ELSE {"C13"}) \cup x,
                 "message encoded that has to be refused")
          \cup F(Encodable(m) => ok,
                 {"C05"} \cup (IF m.t = CONNECT THEN {"C12"} ELSE {})
                 \cup (IF m.pr # << >> THEN {"C07"} ELSE {}) \cup x, "encode refused")
          \cup F(~(ok /\ m.id # << >> /\ OnWire(m).id = << >> /\ Encodable(m) /\ e.n = Len(Layout(m)) + 2),
                 {"C13"} \cup x, "identifier in a packet that has none")
          \cup (IF ok /\ Encodable(m)
                THEN IF P.st \in {"ok", "may"}
                     THEN DiffLab(OnWire(m), P.m, EncLab, Fields \cup {"uf", "pf"}, x, "encoded ")
                          \* 5.0 content in a 3.x packet, or none in a 5.0 one
                          \cup F((OnWire(m).pr = << >>) = (P.m.pr = << >>) /\ (OnWire(m).rc = 0) = (P.m.rc = 0)
                                  /\ (OnWire(m).cs = << >>) = (P.m.cs = << >>), {"C05", "C09"} \cup x, "5.0 content")
                          \cup F(P.why # "remlen-minimal", {"C24"} \cup x, "remaining length not minimal")
                     ELSE F(FALSE, {"C05"} \cup x \cup (RuleLab(P.why, m.v) \cap {"C13", "C09"})
                                   \cup (IF P.st \in {"inc", "long"} THEN {"C24"} ELSE {})
                                   \cup (IF m.pr # << >> THEN {"C07", "C09"} ELSE {})
                                   \cup (IF m.v < 5 THEN {"C09"} ELSE {})
                                   \cup (IF m.t = CONNECT THEN {"C12"} ELSE {}),
                            "encoded bytes are no packet: " \o P.st \o " " \o P.why)
                ELSE {})))

(* ------------------------------ calls ---------------------------------- *)
OpLab(op) ==
  CASE op \in {"pset", "pdis"} -> {"C07"}
    [] op = "id"    -> {"C13"}
    [] op \in {"rc", "codes"} -> {"C10"}
    [] op = "topic" -> {"C11", "C23"}
    [] op \in {"cl", "ka", "ci", "will", "rwill", "cred"} -> {"C12"}
    [] op \in {"set", "dup", "ret", "qos", "top", "pay", "pid"} -> {"C14"}
    [] op = "exp"   -> {"C16"}
    [] op = "ver"   -> {"C09"}
    [] OTHER        -> {}

CallStep(e) ==
  LET m  == objs[e.o]
      w  == IF e.op = "will" /\ e.w > 0 THEN objs[e.w] ELSE Nil     \* 0: no message given
      R  == Outcome(m, e, w)
      after == IF e.ok THEN {R.m1} ELSE R.m0
      near  == CHOOSE s \in after : TRUE
      ob    == IF Quiet(e) THEN Proj(near) ELSE Obs(e.obs)
      good  == {s \in after : Proj(s) = ob}
      x == X(e)
  IN [fails |->
        F(~e.pan, OpLab(e.op) \cup x, e.op \o " panics")
        \cup (IF e.pan THEN {} ELSE
             F((R.r = "yes" => e.ok) /\ (R.r = "no" => ~e.ok),
               OpLab(e.op) \cup x \cup (IF e.op = "pset" /\ m.v # 5 THEN {"C09"} ELSE {})
               \cup (IF e.op \in {"top", "topic", "set"} THEN {"C11"} ELSE {}),
               e.op \o (IF e.ok THEN " accepted" ELSE " refused"))
             \cup (IF good # {} \/ ((R.r = "yes" /\ ~e.ok) \/ (R.r = "no" /\ e.ok)) THEN {}
                   ELSE DiffLab(Proj(near), ob, CallLab, Fields, OpLab(e.op) \cup x, e.op \o " changed "))
             \cup F(Quiet(e) \/ TypesOk(e.obs), {"C07"}, "reported property type")),
      st |-> IF e.pan THEN m ELSE IF good # {} THEN CHOOSE s \in good : TRUE ELSE Resync(near, ob)]

(* ------------------------------ step function -------------------------- *)
\* a step: fails, the new objects, the new stream state
Keep(o) == IF o = objs THEN last ELSE [k \in 1..Slots |-> IF o[k] = objs[k] THEN last[k] ELSE << >>]
Step(f, o, w) == [fails |-> f, objs |-> o, wire |-> w, last |-> Keep(o)]
Same(f)       == [fails |-> f, objs |-> objs, wire |-> wire, last |-> last]

\* what an encode gave, up to the order of properties
Encoded(e, m, P) ==
  IF e.pan THEN << "panic" >>
  ELSE IF e.er # "ok" THEN << e.er >>
  ELSE IF P.st \in {"ok", "may"} THEN << "ok", P.m >>
  ELSE << "bytes", Len(e.out), Sum(e.out, 1, 0) >>

\* encoding an unchanged message again gives the same
EncodeStep(e) ==
  LET m == objs[e.o]
      P == Parse(m.v, e.out)
      r == Encoded(e, m, P)
      short == ~e.pan /\ e.L < e.sz
  IN [fails |-> EncodeFails(e, m, P)
                \cup F(short \/ last[e.o] = << >> \/ last[e.o] = r, {"C06"} \cup X(e), "encoding again differs"),
      objs |-> objs, wire |-> wire,
      last |-> IF short THEN last ELSE [last EXCEPT ![e.o] = r]]

\* a message with a content of e.n bytes more (and e.gib GiB): payload,
\* properties or topics
BigFails(e, m) ==
  LET pair == [i |-> 38, s |-> << Val("pair", << >>, << >>) >>]
      \* with a property block of one user property: one length byte and 5 bytes
      base == IF e.k = "props" THEN Len(LayoutBody([m EXCEPT !.pr = << pair >>])) - 5
              ELSE Len(LayoutBody([m EXCEPT !.pr = << >>]))
      R == CASE e.k = "props" -> base - 1 + VarLen(e.n) + e.n
             [] e.k = "us" -> base + 2 + e.n
             [] e.k = "pw" -> base + 3 + 2 + e.n
             [] e.k = "wl" -> base + 3 + 2 + e.n + (IF m.v = 5 THEN 1 ELSE 0)
             [] OTHER -> base + e.n
      x == X(e) \cup {"C24"}
  IN F(~e.pan, x \cup {"C05"}, "panic")
     \cup (IF e.gib > 0 \/ R > MaxVarInt
           THEN F(e.se # "ok", x, "size of a too long message")
                \cup F(e.er # "ok", x, "too long message encoded")
           ELSE F(e.se = "ok" /\ e.sz = 1 + VarLen(R) + R, x, "size")
                \cup F(e.er = "ok", x \cup {"C05"}, "long message refused")
                \cup (IF e.se # "ok" \/ e.er # "ok" THEN {} ELSE
                      F(e.cnt = e.sz, x \cup {"C06"}, "encoded bytes differ from size")
                      \cup F(StartsWith(e.hdr, << HeaderByte(m) >> \o EncVar(R)), x, "remaining length")
                      \cup F(e.de = "ok" /\ e.dn = e.cnt /\ e.deq, x \cup {"C05", "C02", "C03"} \cup (IF m.t = CONNECT THEN {"C12"} ELSE {})
                                                                         \cup (IF e.k \in {"topics", "codes"} THEN {"C23"} ELSE {}), "long message read back")
                      \cup F(e.cnt > 1 => e.short = "buf" /\ e.scnt = e.sz, x \cup {"C06"}, "short buffer")))

LookupFails(e) ==
  LET got == [k \in 1..Len(e.r) |-> [i |-> e.r[k].i, s |-> e.r[k].s]]
      exp == PropGet(objs[e.o], e.i)
  IN F(~e.pan, {"C07"} \cup X(e), "lookup panics") \cup F(IF ~(objs[e.o].v = 5 /\ HasProp(objs[e.o], e.i)) THEN got = << >> ELSE got = << [i |-> e.i, s |-> exp] >>,
       {"C07"} \cup X(e) \cup (IF objs[e.o].v # 5 THEN {"C09"} ELSE {}), "lookup")

\* p.k bytes of a long packet, or the whole of it and more
PartFails(e, p, P, x) ==
  F(~p.pan, {"C01"} \cup x, "panic")
  \cup F(~p.mod, {"C01"}, "input modified")
  \cup F(Proportionate(p.al, p.k), {"C01"}, "memory out of proportion")
  \cup F((p.er = "ok") = ~p.nil, {"C01"}, "message and error")
  \cup F(p.er # "ok", {"C02", "C04"} \cup x, IF p.k < e.len THEN "accepted a part" ELSE "accepted with bytes after its end")
  \cup (IF P.st # "ok" THEN {} ELSE
         F(p.k < e.len => Insufficient(p.er), {"C02"} \cup x, "prefix not reported incomplete")
         \cup F(p.k > e.len => ~Insufficient(p.er), {"C02"} \cup x, "complete packet reported incomplete")
         \cup F(p.k > 4 => p.n = e.len, {"C02"} \cup x, "announced length of a part"))

\* a packet of e.n equal units; e.s is the same packet with few of them, which
\* is accepted or refused alike
RepFails(e) ==
  LET P == IF e.s = << >> THEN [st |-> "may"] ELSE Parse(e.v, e.s)     \* << >>: few units say nothing about many
      acc == e.er = "ok"
      x == X(e)
  IN F(~e.pan, {"C01"} \cup x, "panic")
     \cup F(~e.mod, {"C01"}, "input modified")
     \cup F(Proportionate(e.al, e.len), {"C01"}, "memory out of proportion")
     \cup F(e.ms < 20000, {"C01"}, "time out of proportion")
     \cup F(acc = ~e.nil, {"C01"}, "message and error")
     \cup F(acc => e.cnt = e.len, {"C01", "C02"} \cup x, "count of accepted packet")
     \cup UNION {PartFails(e, e.pa[j], P, x) : j \in 1..Len(e.pa)}
     \cup (CASE P.st = "ok"  -> F(acc, {"C03"} \cup x \cup (IF P.m.pr # << >> THEN {"C08"} ELSE {}) \cup (IF P.m.ts # << >> \/ P.m.cs # << >> THEN {"C23"} ELSE {}),
                                  "long packet refused")
                                \cup F(acc => e.sz = e.len, {"C05", "C24"} \cup x, "size after decoding")
                                \cup F(e.ali # 1, {"C21"} \cup x, "message of a long packet after buffer reuse")
                                \* where the few units come back byte for byte, so do the many
                                \cup F(acc /\ Encodable(P.m) /\ Layout(P.m) = e.s =>
                                         e.rt = 1 \/ (e.rt = 2 /\ (Len(P.m.pr) > 1 \/ (P.m.wl # << >> /\ Len(P.m.wl[1].pr) > 1))),
                                       {"C03", "C05"} \cup x
                                       \cup (IF P.m.pr # << >> THEN {"C07", "C08"} ELSE {})
                                       \cup (IF P.m.ts # << >> \/ P.m.cs # << >> THEN {"C23"} ELSE {})
                                       \cup (IF P.m.t = CONNECT THEN {"C12"} ELSE {}), "long packet read and written back")
           [] P.st = "rej" -> F(~acc, RuleLab(P.why, e.v) \cup x, "long packet accepted: " \o P.why)
                              \cup F(~Insufficient(e.er), {"C02"} \cup x, "complete packet reported incomplete")
           [] OTHER -> {})

Visited(m, k) == IF k = 0 \/ k > Len(m.ts) THEN m.ts ELSE SubSeq(m.ts, 1, k)

Do(e) ==
  CASE e.op = "new" ->
         LET def == TypeDefined(e.t, e.v)
             ob == IF Quiet(e) THEN IF def THEN New(e.t, e.v) ELSE Nil ELSE Obs(e.obs)
         IN Step(F(~e.pan, {"C25"} \cup X(e), "creation panics")
                 \cup F(def <=> e.er = "ok", {"C25", "C09"} \cup X(e), "creation")
                 \cup F(~def => e.er = "type", {"C25"} \cup X(e), "error of refused creation")
                 \cup F(~def => e.nil, {"C25"} \cup X(e), "message with refused creation")
                 \cup (IF def /\ e.er = "ok"
                       THEN DiffLab(Proj(New(e.t, e.v)), ob, CallLab, Fields, {"C25"} \cup X(e), "created ")
                            \cup F(Quiet(e) \/ e.hf = HeaderFlags(e.t), {"C25"} \cup X(e), "header flags")
                            \cup F(Quiet(e) \/ e.nm = TypeName[e.t], {"C25"} \cup X(e), "name")
                       ELSE {}),
                 [objs EXCEPT ![e.o] = IF e.er # "ok" THEN Nil
                                       ELSE IF def THEN New(e.t, e.v) ELSE Resync(ob, ob)], wire)
    [] e.op = "dec" ->
         LET P == Parse(e.v, e.b)
             ob == IF Quiet(e) THEN Nil ELSE Obs(e.obs)
         IN Step(DecodeFails(e, P) \cup DecodedFails(e, P, ob),
                 [objs EXCEPT ![e.o] = DecodedState(e, P, ob)], wire)
    [] e.op = "enc" -> IF objs[e.o].t = 0 THEN Same({}) ELSE EncodeStep(e)
    [] e.op = "pget" -> Same(LookupFails(e))
    [] e.op = "pfor" -> Same(F(~e.pan /\ ((objs[e.o].v = 5) <=> e.ok), {"C07", "C09"} \cup X(e), "iteration"))
    [] e.op = "obs" ->      \* nothing was called on this message
         LET ob == Obs(e.obs) IN
         Step(DiffLab(Proj(objs[e.o]), ob, LAMBDA f : {"C22"}, Fields, X(e), "influenced "),
              [objs EXCEPT ![e.o] = IF Proj(objs[e.o]) = ob THEN @ ELSE Resync(@, ob)], wire)
    [] e.op = "look" ->     \* the first look at it after some calls
         LET ob == Obs(e.obs) IN
         IF objs[e.o].t = 0 THEN Same({})
         ELSE Step(DiffLab(Proj(objs[e.o]), ob, CallLab, Fields, X(e), "later found "),
                   [objs EXCEPT ![e.o] = IF Proj(objs[e.o]) = ob THEN @ ELSE Resync(@, ob)], wire)
    [] e.op = "scrib" ->    \* its receive buffer was overwritten
         LET m == objs[e.o]
             ob == Obs(e.obs)
             free == CASE m.t = CONNECT -> {"ci", "us", "pw"}
                       [] m.t \in {SUBSCRIBE, UNSUBSCRIBE} -> {"ts"}
                       [] OTHER -> {}
         IN Step(DiffLab(Proj(m), ob, LAMBDA f : {"C21"}, Fields \ free, X(e), "after buffer reuse "),
                 [objs EXCEPT ![e.o] = Resync(m, ob)], wire)
    [] e.op = "clone" ->
         LET m == objs[e.o]
             ob == Obs(e.obs)
             \* the local id is no part of what is forwarded: a clone may have it or not
             c == [CloneOf(m, e.v) EXCEPT !.pi = IF ob.pi = m.pi THEN m.pi ELSE << >>]
             src == Obs(e.src)
         IN Step(F(~e.pan, {"C15"}, "clone panics")
                 \cup (IF e.pan THEN {} ELSE
                       F(TopicName(m.tp) => e.ok, {"C15"} \cup X(e), "clone refused")
                       \cup (IF e.ok THEN DiffLab(Proj(c), ob, LAMBDA f : {"C15"}, Fields, X(e), "clone ") ELSE {})
                       \cup DiffLab(Proj(m), src, LAMBDA f : {"C15"}, Fields, X(e), "cloning changed ")),
                 [objs EXCEPT ![e.p] = IF e.pan \/ ~e.ok THEN Nil
                                       ELSE IF Proj(c) = ob THEN c ELSE Resync(c, ob)], wire)
    [] e.op = "each" ->
         LET m == objs[e.o]
             want == Visited(m, e.k)
         IN Same(F(~e.pan, {"C23"} \cup X(e), "visiting panics")
                 \cup F(e.same, {"C23"} \cup X(e), "visitor error replaced")
                 \cup F(e.ts = want, {"C23"} \cup X(e), "topics visited")
                 \cup F(e.ok <=> ~(e.k > 0 /\ e.k <= Len(m.ts)), {"C23"} \cup X(e), "visitor error"))
    [] e.op = "same" ->     \* the same calls gave the same as when they were made on their own
         Same(F(e.got = e.ref, {"C22"} \cup X(e), "differs from the message on its own"))
    [] e.op = "rep" -> Same(RepFails(e))
    [] e.op = "big" -> Same(BigFails(e, objs[e.o]))
    [] e.op = "send" ->     \* the peer sends these bytes
         Step({}, objs, [NoWire EXCEPT !.b = e.b])
    [] e.op = "feed" -> Step({}, objs, [wire EXCEPT !.have = @ + e.n])
    [] e.op = "try" ->      \* Decode of the first k unread bytes
         LET b == SubSeq(wire.b, wire.base + 1, wire.base + e.k)
             P == Parse(e.v, b)
             f == [er |-> e.er, n |-> e.n, nil |-> e.er # "ok", b |-> b, v |-> e.v, pan |-> FALSE,
                   hang |-> FALSE, mod |-> FALSE, al |-> 0, x |-> << "C02" >>]
         IN Step(DecodeFails(f, P), objs,
                 IF e.er = "ok" THEN [wire EXCEPT !.base = @ + e.n, !.got = @ + 1] ELSE wire)
    [] e.op = "end" ->      \* the reader has delivered everything it could
         Same(F(wire.base = Len(wire.b) /\ wire.got = e.n, {"C02"} \cup X(e), "packets delivered"))
    [] e.op = "fail" ->     \* what no execution may contain (data race, crash)
         Same(F(FALSE, X(e), e.why))
    [] OTHER -> IF ~Has(objs[e.o].t, e.op) THEN Same({})   \* an object the specification lost
                ELSE LET s == CallStep(e) IN Step(s.fails, [objs EXCEPT ![e.o] = s.st], wire)

(* ----------------------------------- spec ------------------------------ *)
Init == /\ tid \in 1..NTraces
        /\ l = 0
        /\ objs = [s \in 1..Slots |-> Nil]
        /\ wire = NoWire
        /\ last = [s \in 1..Slots |-> << >>]

Report(e, fs) ==
  \A f \in fs : PrintT("FAIL " \o ToJson([tid |-> tid, l |-> l + 1, op |-> e.op, lab |-> f.lab, why |-> f.why]))

Next == /\ l < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l + 1]
               s == Do(e)
           IN /\ Report(e, s.fails)
              /\ objs' = s.objs
              /\ wire' = s.wire
              /\ last' = s.last
        /\ l' = l + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

TypeOK == /\ l \in 0..Len(Traces[tid].ev)
          /\ wire.base <= wire.have \/ wire = NoWire
=============================================================================
