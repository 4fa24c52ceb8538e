------------------------------ MODULE TraceFun ------------------------------
(***************************************************************************)
(* Validation of recorded calls of the functions that have no state: code, *)
(* type and property tables, topics and text, length prefixed fields,      *)
(* subscription options, authorization texts, configuration, expiry.       *)
(* Every event is a batch e.c of calls of function e.k.                    *)
(***************************************************************************)
EXTENDS Topics, Tables, Expiry, Config, Plugin, TLC, Json

CONSTANT TraceFile

Traces == ndJsonDeserialize(TraceFile)
VARIABLES tid, l
vars == << tid, l >>

F(c, labs, why) == IF c THEN {} ELSE {[lab |-> labs, why |-> why]}
B01(b) == IF b THEN 1 ELSE 0

(* ------------------------------- tables -------------------------------- *)
Code(c) ==
  F(c.val = c.n, {"C10"}, "code value")
  \cup F(c.v[1] = B01(c.n \in AllV3 \cup AllV5), {"C10"}, "valid code")
  \cup F(c.v[2] = B01(c.n \in AllV3), {"C10"}, "valid 3.x code")
  \cup F(c.v[3] = B01(c.n \in AllV5), {"C10"}, "valid 5.0 code")
  \cup F(\A t \in 0..16 : c.ty[t + 1] = B01(t \in PacketTypes /\ c.n \in TypeCodes(t)), {"C10"}, "code of packet type")
  \cup F(\A t \in 0..16 : c.di[t + 1] = (IF t \in PacketTypes /\ c.n \in TypeCodes(t) THEN Issuer(t, c.n) ELSE -1),
         {"C10"}, "issuer of code")

Type(c) ==
  LET def == c.n \in PacketTypes IN
  F(def => c.nm = TypeName[c.n], {"C25"}, "type name")
  \cup F(~def => c.nm \notin {TypeName[t] : t \in PacketTypes} /\ c.nm # "", {"C25"}, "name of undefined type")
  \cup F(c.ds # "", {"C25"}, "type description")
  \cup F(c.fl = (IF def THEN HeaderFlags(c.n) ELSE 0), {"C25"}, "default flags")
  \cup F(\A v \in 1..3 : c.va[v] = B01(TypeDefined(c.n, v + 2)), {"C25"}, "type validity")

Prop(c) ==
  F(c.ok = (c.n \in PropIds), {"C08", "C07"}, "property id")
  \cup F(\A t \in 0..16 : c.al[t + 1] = B01(t \in PacketTypes /\ PropAllowed(c.n, t)), {"C08", "C07"}, "property of packet type")
  \cup F(\A t \in 0..16 : c.du[t + 1] = B01(t \in PacketTypes /\ PropRepeats(c.n, t)), {"C08", "C07"}, "repeatable property")

(* ------------------------------ topics, text --------------------------- *)
Part(s, q) == [f |-> s.f, r |-> s.r, s |-> s.s, d |-> s.d, o |-> q]

Topic(c) ==
  LET f == ParseFilter(c.a) IN
  F(~c.mod, {"C11"}, "input modified")
  \cup F(c.t.ok = f.ok, {"C11"}, "topic filter")
  \cup F(c.t.ok /\ f.ok => c.t.x = Part(f, 0), {"C11"}, "topic filter parts")
  \cup F(c.s.ok = (f.ok /\ OptQoS(c.q) < 3), {"C11"}, "subscription")
  \cup F(c.s.ok /\ f.ok => c.s.x = Part(f, c.q), {"C11", "C23"}, "subscription parts")
  \cup F(c.vt = TopicName(c.a), {"C11"}, "topic name")
  \cup F(c.vu = Text(c.a), {"C11"}, "text")

\* accepted code points: the printable ones that are no surrogates
Utf1(c) == F(c.rs = << 32, 126, 160, 55295, 57344, 1114111 >>, {"C11"}, "text of one code point")
Utf2(c) == F(\A i \in 0..255 : c.ok[i + 1] = B01(Text(<< c.n, i >>)), {"C11"}, "text of two bytes")

Opt(c) ==
  F(c.r = << OptQoS(c.n), B01(OptNL(c.n)), B01(OptRAP(c.n)), OptRH(c.n), c.n >>, {"C23"}, "options")
  \cup F(c.qv = << B01(c.n < 3), B01(c.n < 3 \/ c.n = 128) >>, {"C14", "C23"}, "QoS validity")

(* -------------------------- length prefixed fields --------------------- *)
LpRead(c) ==
  LET ok == c.l >= 2 /\ c.p + 2 <= c.l IN
  F(~c.mod, {"C26"}, "input modified")
  \cup F(ok => c.er = "ok", {"C26"}, "complete field refused")
  \cup F(~ok => c.er = "data" /\ c.nil, {"C26"}, "incomplete field")
  \cup F(ok /\ c.er = "ok" => c.n = c.p + 2 /\ c.len = c.p /\ c.eq, {"C26"}, "field content")

LpWrite(c) ==
  LET fits == c.w <= 65535
      room == c.l >= 2 + c.w IN
  F(~c.mod, {"C26"}, "content modified")
  \cup F(c.un, {"C26"}, "other bytes written")
  \cup F(~fits => c.er \notin {"ok", "buf"}, {"C26"}, "too long content")
  \cup F(fits /\ ~room => c.er = "buf" /\ c.n = 2 + c.w, {"C26"}, "short buffer")
  \cup F(fits /\ room => c.er = "ok" /\ c.n = 2 + c.w /\ c.pre = Enc16(c.w) /\ c.eq, {"C26"}, "field written")

\* fields of every length into and from a buffer one byte short, exact, and one byte longer
LpSweep(c) ==
  UNION {LET g == c.segs[j] IN
         (IF g.n <= 65535
          THEN F(g.hi <= 65535, {"C26"}, "too long content")
               \cup F(g.we = << "buf", "ok", "ok" >> /\ g.wn = << 2, 2, 2 >> /\ g.eq, {"C26"}, "field written")
               \cup F(g.re = << "data", "ok", "ok" >> /\ g.rn = << 0, 2, 2 >> /\ g.req, {"C26"}, "field read")
          ELSE F(\A k \in 1..3 : g.we[k] = "other", {"C26"}, "too long content"))
         \cup F(g.un, {"C26"}, "other bytes written") : j \in 1..Len(c.segs)}
  \cup F(c.segs[1].n = 0 /\ c.segs[Len(c.segs)].hi >= 65536, {"C26"}, "lengths")

(* ------------------------------ authorization -------------------------- *)
Distinct(s) == Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)
Names(s)    == {s[k] : k \in 1..Len(s)}

\* the defined values: sv allow and deny, av read and write, ei and pi errors
AuthDefined(c) ==
  F(c.sds = << "allow", "deny" >>, {"C20"}, "status reads as")
  \cup F(Distinct(c.sv) /\ Distinct(c.sts) /\ "" \notin Names(c.sts), {"C20"}, "status texts")
  \cup F(Distinct(c.av) /\ Distinct(c.ats) /\ "" \notin Names(c.ats), {"C20"}, "access names")
  \cup F(Distinct(c.ei) /\ Distinct(c.es) /\ "" \notin Names(c.es), {"C20"}, "auth error texts")
  \cup F(Distinct(c.pi) /\ Distinct(c.ps) /\ "" \notin Names(c.ps), {"C20"}, "persistence error texts")

\* any value: only allow reads as allowed, only defined errors and access
\* types have the texts of defined ones
Auth(c) ==
  F((c.sd = "allow") = (c.n = c.sv[1]), {"C20"}, "status reads as")
  \cup F(c.n # c.sv[1] => c.sd \in {"deny", "unknown"}, {"C20"}, "other status reads as")
  \cup F((c.st = c.sts[1]) = (c.n = c.sv[1]), {"C20"}, "status text")
  \cup F(c.st # "", {"C20"}, "empty status text")
  \cup F(CASE c.n = c.av[1] -> c.ac = c.ats[1] [] c.n = c.av[2] -> c.ac = c.ats[2] [] OTHER -> c.ac = "", {"C20"}, "access name")
  \cup F((c.er \in Names(c.es)) = (c.n \in Names(c.ei)) /\ c.er # "", {"C20"}, "auth error text")
  \cup F((c.pe \in Names(c.ps)) = (c.n \in Names(c.pi)) /\ c.pe # "", {"C20"}, "persistence error text")

\* a stretch of values with the same answers: both its ends, and what is defined between them
AuthRange(c) ==
  UNION {LET g == c.segs[j]
             at == {g.n, g.hi} \cup {v \in Names(c.sv) \cup Names(c.av) \cup Names(c.ei) \cup Names(c.pi) : g.n <= v /\ v <= g.hi}
         IN UNION {Auth([c EXCEPT !.n = v, !.st = g.st, !.sd = g.sd, !.er = g.er, !.ac = g.ac, !.pe = g.pe]) : v \in at} : j \in 1..Len(c.segs)}

(* ------------------------- texts of errors and codes ------------------- *)
\* stretches of values with equal texts: a defined value has a text of its own
Defined(c) == CASE c.g = "code" -> AllV3 \cup AllV5 [] c.g = "qos" -> 0..2 [] OTHER -> Names(c.def)
Texts(c) ==
  LET G == Names(c.segs) IN
  F(\A g \in G : g.s # "", {"C28"}, "no text")
  \cup F(\A g \in G : g.d = g.s, {"C28"}, "description")
  \cup F(c.g \in {"err", "prop"} => Distinct(c.def), {"C28"}, "defined errors")
  \cup UNION {F(\A h \in G : (v < h.n \/ v > h.hi) \/ (h.n = v /\ h.hi = v /\ \A g \in G : g.s = h.s => g = h), {"C28"}, "text") : v \in Defined(c)}

(* ------------------------------ configuration -------------------------- *)
Configured(c) ==
  LET ents == {c.e[k] : k \in 1..Len(c.e)}
      ok   == Accepts(c.g, ents)
      got  == {<< c.out[k].k, c.out[k].v >> : k \in 1..Len(c.out)}
      want == Normal(c.g, ents).map
  IN F(~c.mod, {"C19"}, "configuration modified")
     \cup F(ok => c.er = "ok", {"C19"}, "configuration refused")
     \cup F(~ok => c.er = "type" /\ c.nil, {"C19"}, "configuration accepted")
     \cup F(ok /\ c.er = "ok" => got = want /\ Len(c.out) = Cardinality(want), {"C19"}, "normalised entries")
     \cup F(c.g \in {"sm", "im"} /\ ok => ~c.nil, {"C19"}, "no map")
     \cup F(c.g = "sm" => c.same, {"C19"}, "string map copied")

(* ------------------------- descriptor of a plugin ---------------------- *)
Descriptor(c) ==
  LET at == States(Blank, c.e, 1)
  IN UNION {LET x == c.e[j] IN
              IF x.t # "get" THEN {}
              ELSE F(x.s = Told(at[j], x), {"C27"}, "plugin's description")
                   \cup F(x.a = c.api /\ x.a # "", {"C27"}, "API version") : j \in 1..Len(c.e)}

(* --------------------------------- expiry ------------------------------ *)
\* hi and lo: distance to the expiry time just before and just after the call
Expires(c) ==
  IF ~c.has
  THEN F(~c.ex /\ c.eq /\ c.left = << 0, 0 >>, {"C16"}, "message without expiry time expires")
  ELSE F(c.eq, {"C16"}, "reported expiry time")
       \cup F(c.ex => ~AtLeast1(c.lo), {"C16"}, "expired early")
       \cup F(~c.ex => AtLeast1(c.hi), {"C16"}, "expiry missed")
       \cup F(Leq(Secs(c.lo), c.left) /\ Leq(c.left, Secs(c.hi)), {"C16"}, "remaining time")

\* the same on a clock that stands still while a message is asked: exactly the answer of the specification
Clock(c) ==
  LET ss == Run(Start, c.x, 1) IN
  UNION {LET e == c.x[j] IN
           CASE e.t = "ask" ->
                  LET w == Answer(ss[j].at[e.o], ss[j].now)
                  IN IF ~w.has THEN F(~e.ex /\ e.at = << >> /\ e.left = << 0, 0 >>, {"C16"}, "message without expiry time expires")
                     ELSE F(e.at = w.at, {"C16"}, "reported expiry time")
                          \cup F(e.ex => w.ex, {"C16"}, "expired early")
                          \cup F(w.ex => e.ex, {"C16"}, "expiry missed")
                          \cup F(e.left = w.left, {"C16"}, "remaining time")
             [] e.t = "clone" -> F(e.ok, {"C15"}, "clone refused")
             [] OTHER -> {} : j \in 1..Len(c.x)}

(* ----------------------------- identifiers ----------------------------- *)
\* difference between what came out and what went in, over 1..65535
Straight == << << 1, 65535, 0 >> >>
Ids(c) ==
  F(c.dec = Straight, {"C13", "C03"}, "decoded identifier")
  \cup F(c.enc = Straight, {"C13", "C05"}, "encoded identifier")
  \cup F(c.set = Straight, {"C13"}, "identifier set")

\* numbers 0..c.l (from c.s on) that came out otherwise than they went in: none
Values(c) ==
  LET all == << << 0, c.l, 0 >> >>
      x == IF c.i = 0 THEN {"C12"} ELSE {"C07"}
  IN F(c.got = all, {"C03"} \cup (IF c.i = 0 THEN {"C12"} ELSE {"C08"}), "received number")
     \cup F(c.enc = all, {"C05"} \cup x, "number written back")
     \cup F(c.put = all, {"C05"} \cup x, "number set")

(* ----------------------------------------------------------------------- *)
Lab(k) ==
  CASE k = "code" -> {"C10"}      [] k = "type" -> {"C25"}   [] k = "prop" -> {"C08", "C07"}
    [] k \in {"topic", "utf1", "utf2"} -> {"C11"}            [] k = "opt" -> {"C23"}
    [] k \in {"lpr", "lpw", "lps"} -> {"C26"}                       [] k \in {"auth", "authc", "authr"} -> {"C20"}
    [] k = "txt" -> {"C28"}
    [] k = "cfg" -> {"C19"}       [] k = "desc" -> {"C27"}       [] k \in {"exp", "clk"} -> {"C16"}
    [] k = "ids" -> {"C13"}       [] k = "vals" -> {"C03", "C05", "C07", "C08", "C12"}

Judge(k, c) ==
  IF c.pan THEN F(FALSE, Lab(k), "panic")
  ELSE CASE k = "code" -> Code(c)    [] k = "type" -> Type(c)     [] k = "prop" -> Prop(c)
         [] k = "topic" -> Topic(c)  [] k = "utf1" -> Utf1(c)     [] k = "utf2" -> Utf2(c)
         [] k = "opt" -> Opt(c)      [] k = "lpr" -> LpRead(c)    [] k = "lpw" -> LpWrite(c)
         [] k = "lps" -> LpSweep(c)
         [] k = "auth" -> Auth(c)    [] k = "authc" -> AuthDefined(c)
         [] k = "authr" -> AuthRange(c)
         [] k = "desc" -> Descriptor(c)   [] k = "txt" -> Texts(c)
         [] k = "clk" -> Clock(c)    [] k = "cfg" -> Configured(c)   [] k = "exp" -> Expires(c)
         [] k = "ids" -> Ids(c)      [] k = "vals" -> Values(c)

Init == tid \in 1..Len(Traces) /\ l = 0

Report(e, i, fs) ==
  \A f \in fs : PrintT("FAIL " \o ToJson([tid |-> tid, l |-> l + 1, op |-> e.k, i |-> i, lab |-> f.lab, why |-> f.why]))

Next == /\ l < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l + 1] IN
           IF e.op = "fail" THEN Report([k |-> "fail"], 0, F(FALSE, {e.x[k] : k \in 1..Len(e.x)}, e.why))
           ELSE \A i \in 1..Len(e.c) : Report(e, i, Judge(e.k, e.c[i]))
        /\ l' = l + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
TypeOK == l \in 0..Len(Traces[tid].ev)
=============================================================================
