------------------------------- MODULE MCStream ----------------------------
(***************************************************************************)
(* A connection: a peer sends packets, the network delivers the bytes in   *)
(* chunks of any size, a reader decodes the unread bytes and believes the  *)
(* count that is reported with "more data needed". Whatever the chunks,    *)
(* the reader delivers exactly the packets that were sent, each as soon as *)
(* it is complete, and never waits for bytes that do not belong to the     *)
(* packet. With Emit each schedule of chunks is printed once.              *)
(***************************************************************************)
EXTENDS Wire, TLC, Json

CONSTANTS V, MaxLen, MaxPackets, Emit

\* packets of the peer
Ping    == << 192, 0 >>
Ack     == << 64, 2, 0, 9 >>
Pub0    == IF V = 5 THEN << 48, 5, 0, 1, 97, 0, 98 >> ELSE << 48, 4, 0, 1, 97, 98 >>
Long0   == << 48, 131, 0, 0, 1, 97 >>           \* length in two bytes although one would do
Pub1    == IF V = 5 THEN << 50, 6, 0, 1, 97, 0, 1, 0 >> ELSE << 50, 5, 0, 1, 97, 0, 1 >>
Conn    == << 32, IF V = 5 THEN 3 ELSE 2, 0, 0 >> \o (IF V = 5 THEN << 0 >> ELSE << >>)
Close   == << 224, 0 >>
Broken     == << 98, 0 >>                          \* PUBREL without identifier
Packets == {Ping, Ack, Pub0, Pub1, Conn, Close} \cup (IF V < 5 THEN {Long0} ELSE {})

Seqs == UNION {[1..n -> Packets] : n \in 1..MaxPackets}
Streams == {s \in Seqs : Len(Flat(s)) <= MaxLen}

VARIABLES sent,   \* the packets
          tail,   \* a malformed packet follows
          have,   \* bytes that have arrived
          base,   \* bytes consumed
          need,   \* length of the packet being read as far as the reader knows, 0
          got,    \* packets delivered
          st,     \* "read" there may be something to do, "wait" for bytes, "closed" by an error
          cuts
vars == << sent, tail, have, base, need, got, st, cuts >>

Bytes == Flat(sent) \o (IF tail THEN Broken ELSE << >>)

Init == /\ sent \in Streams /\ tail \in BOOLEAN
        /\ have = 0 /\ base = 0 /\ need = 0 /\ got = << >> /\ st = "wait" /\ cuts = << >>

Arrive == /\ st = "wait" /\ have < Len(Bytes)
          /\ \E k \in 1..(Len(Bytes) - have) :
               /\ have' = have + k
               /\ cuts' = IF Emit THEN Append(cuts, k) ELSE cuts
               /\ st' = "read"
               /\ UNCHANGED << sent, tail, base, need, got >>
               /\ (Emit /\ have' = Len(Bytes)) => PrintT("S " \o ToJson([b |-> Bytes, n |-> Len(sent), bad |-> tail, cuts |-> cuts']))

Unread == SubSeq(Bytes, base + 1, have)
Read ==
  /\ st = "read"
  /\ UNCHANGED << sent, tail, have, cuts >>
  /\ IF Unread = << >> \/ Len(Unread) < need
     THEN st' = "wait" /\ UNCHANGED << base, need, got >>
     ELSE LET x == IF need > 0 THEN SubSeq(Unread, 1, need) ELSE Unread
              P == Parse(V, x)
          IN CASE P.st \in {"ok", "may"} -> /\ got' = Append(got, P.m) /\ base' = base + Len(x) /\ need' = 0 /\ st' = "read"
               [] P.st = "long" -> need' = P.need /\ UNCHANGED << base, got, st >>
               [] P.st = "inc"  -> need' = P.need /\ st' = "wait" /\ UNCHANGED << base, got >>
               [] OTHER         -> st' = "closed" /\ UNCHANGED << base, need, got >>

Next == Arrive \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------------------------------------------------ *)
Meant(k) == Parse(V, sent[k]).m
Delivered == /\ Len(got) <= Len(sent)
             /\ \A k \in 1..Len(got) : got[k] = Meant(k)
             /\ base = Len(Flat(SubSeq(sent, 1, Len(got))))

\* while the reader waits, the packet is not complete, and it does not ask
\* for bytes beyond the packet's end
Prompt == st = "wait" /\ have > 0 =>
            LET rest == IF Len(got) < Len(sent) THEN sent[Len(got) + 1] ELSE IF tail THEN Broken ELSE << >> IN
            have - base < Len(rest) \/ rest = << >>
Exact == need > 0 => need = IF Len(got) < Len(sent) THEN Len(sent[Len(got) + 1]) ELSE Len(Broken)
OnlyBadCloses == st = "closed" => tail /\ Len(got) = Len(sent)

\* everything is delivered in the end
Complete == <>(Len(got) = Len(sent) /\ have = Len(Bytes) /\ (tail => st = "closed"))
=============================================================================
