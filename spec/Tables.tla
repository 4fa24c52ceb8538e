------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* The tables of MQTT 3.1, 3.1.1 and 5.0: packet types, properties and     *)
(* reason codes.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONNECT == 1   CONNACK == 2      PUBLISH == 3   PUBACK == 4      PUBREC == 5
PUBREL == 6    PUBCOMP == 7      SUBSCRIBE == 8 SUBACK == 9      UNSUBSCRIBE == 10
UNSUBACK == 11 PINGREQ == 12     PINGRESP == 13 DISCONNECT == 14 AUTH == 15

Versions == {3, 4, 5}
PacketTypes == 1..15
TypeDefined(t, v) == t >= 1 /\ t <= (IF v = 5 THEN 15 ELSE 14)
HeaderFlags(t) == IF t \in {PUBREL, SUBSCRIBE, UNSUBSCRIBE} THEN 2 ELSE 0

TypeName == << "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE",
               "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH" >>

\* packets whose layout has a packet identifier (PUBLISH: QoS 1 and 2)
IdTypes  == {PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK}
Acks     == {PUBACK, PUBREC, PUBREL, PUBCOMP}

ProtoName(v) == IF v = 3 THEN << 77, 81, 73, 115, 100, 112 >> ELSE << 77, 81, 84, 84 >>

(* ------------------------------- properties ---------------------------- *)
\* value types
TByte == 0  TShort == 1  TInt == 2  TVar == 3  TString == 4  TPair == 5  TBinary == 6

PropOrder == << 1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31,
                33, 34, 35, 36, 37, 38, 39, 40, 41, 42 >>
PropIds   == {PropOrder[i] : i \in 1..Len(PropOrder)}

PropType(i) ==
  CASE i \in {1, 23, 25, 36, 37, 40, 41, 42} -> TByte
    [] i \in {19, 33, 34, 35}                -> TShort
    [] i \in {2, 17, 24, 39}                 -> TInt
    [] i = 11                                -> TVar
    [] i \in {3, 8, 18, 21, 26, 28, 31}      -> TString
    [] i = 38                                -> TPair
    [] i \in {9, 22}                         -> TBinary
    [] OTHER                                 -> 255

\* packet types a property may appear in; will properties are the PUBLISH
\* ones minus WillForbidden
PropTypes(i) ==
  CASE i \in {1, 2, 3, 8, 9, 35}      -> {PUBLISH}
    [] i = 24                         -> {PUBLISH}
    [] i = 11                         -> {PUBLISH, SUBSCRIBE}
    [] i = 17                         -> {CONNECT, CONNACK, DISCONNECT}
    [] i \in {18, 19, 26, 36, 37, 40, 41, 42} -> {CONNACK}
    [] i \in {21, 22}                 -> {CONNECT, CONNACK, AUTH}
    [] i \in {23, 25}                 -> {CONNECT}
    [] i = 28                         -> {CONNACK, DISCONNECT}
    [] i = 31                         -> Acks \cup {CONNACK, SUBACK, UNSUBACK, DISCONNECT, AUTH}
    [] i \in {33, 34, 39}             -> {CONNECT, CONNACK}
    [] i = 38                         -> PacketTypes \ {PINGREQ, PINGRESP}
    [] OTHER                          -> {}

PropAllowed(i, t) == i \in PropIds /\ t \in PropTypes(i)
PropRepeats(i, t) == PropAllowed(i, t) /\ (i = 38 \/ (i = 11 /\ t = PUBLISH))
WillForbidden     == {11, 35}       \* in a will
PublishForbidden  == {24}           \* in a PUBLISH that is no will

\* properties kept when a 5.0 PUBLISH is cloned for a 5.0 session
Forwarded == {1, 3, 8, 9, 38}

(* ------------------------------ reason codes --------------------------- *)
ConnAckV3   == 0..5
ConnAckV5   == {0, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151,
                153, 154, 155, 156, 157, 159}
PubAckCodes == {0, 16, 128, 131, 135, 144, 145, 151, 153}
PubRelCodes == {0, 146}
SubAckV3    == {0, 1, 2, 128}
SubAckV5    == {0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162}
UnsubAckV5  == {0, 17, 128, 131, 135, 143, 145}
DisconCodes == {0, 4, 128, 129, 130, 131, 135, 137, 139, 141, 142, 143, 144, 147, 148, 149, 150,
                151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162}
AuthCodes   == {0, 24, 25}

\* codes of a packet type over all versions
TypeCodes(t) ==
  CASE t = CONNACK            -> ConnAckV3 \cup ConnAckV5
    [] t \in {PUBACK, PUBREC} -> PubAckCodes
    [] t \in {PUBREL, PUBCOMP} -> PubRelCodes
    [] t = SUBACK             -> SubAckV5
    [] t = UNSUBACK           -> UnsubAckV5
    [] t = DISCONNECT         -> DisconCodes
    [] t = AUTH               -> AuthCodes
    [] OTHER                  -> {}

\* codes a receiver of that version must understand
WireCodes(t, v) ==
  CASE t = CONNACK            -> IF v = 5 THEN ConnAckV5 ELSE ConnAckV3
    [] t = SUBACK             -> IF v = 5 THEN SubAckV5 ELSE SubAckV3
    [] OTHER                  -> IF v = 5 THEN TypeCodes(t) ELSE {}

AllV5 == {0, 1, 2, 4, 16, 17, 24, 25} \cup (128..162)
AllV3 == 0..5

\* who may send the code in that packet: 0 server, 1 client, 2 both
Issuer(t, c) ==
  CASE t \in {CONNACK, SUBACK, UNSUBACK} -> 0
    [] t \in Acks                        -> 2
    [] t = AUTH                          -> IF c = 0 THEN 0 ELSE IF c = 24 THEN 2 ELSE 1
    [] t = DISCONNECT                    ->
         IF c \in {0, 4} THEN 1
         ELSE IF c \in {128, 129, 130, 131, 144, 147, 148, 149, 150, 151, 152, 153} THEN 2
         ELSE 0
=============================================================================
