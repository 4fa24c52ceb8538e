#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements stay easy to diff)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
M="mqttp/"
p("C01","Decoding untrusted bytes is total and safe",
 "For every byte string and every supported protocol version, decoding returns: it never panics, never hangs and never takes time or memory out of proportion to the input. It returns either a message, no error and a count equal to the whole input, or no message and an error. It never modifies the input.",
 ["inputs"],"every byte string (including truncated, extended and bit-flipped packets of all 15 types and random bytes) under versions 3.1, 3.1.1 and 5.0",
 "The tests decode about forty hand-written buffers; totality is a statement over every byte string a peer can send, and most tests only look at the error.",
 [M+"packet.go",M+"header.go",M+"property.go"],[("Decode with recover","mqttp/packet.go:Decode"),("fixed header bounds checks","mqttp/header.go:decode")],["mqttp.Decode"])
p("C02","Packet boundaries are reported exactly for any chunking",
 "A proper prefix of a packet is reported as insufficient data, together with the packet's full length as soon as its fixed header is complete; a buffer that continues past the packet's end is refused, with the packet's full length; a complete packet, valid or malformed, is never reported as insufficient data. A remaining length that needs more than four bytes is refused as malformed. Hence a reader that relies only on these reports recovers exactly the sent packet sequence however the stream is cut into chunks.",
 ["inputs","schedules"],"every sequence of packets, every way of cutting the byte stream into chunks, every remaining length encoding",
 "Tests decode whole packets and a few packets with one missing or extra byte; no test reassembles a stream or enumerates cut points.",
 [M+"header.go",M+"packet.go",M+"routines.go"],[("length comparison in fixed header decode","mqttp/header.go:decode"),("variable byte integer reader","mqttp/header.go:uvarint")],["mqttp.Decode"])
p("C03","Well-formed packets are accepted and reported as sent",
 "Every well-formed MQTT 3.1, 3.1.1 or 5.0 control packet, of any of the 15 types, is accepted, and the accessors of the resulting message report exactly the values on the wire: flags, identifiers, topics, payloads, reason codes, credentials, will and properties, with list order preserved. Refusing these is accepted: a 5.0 DISCONNECT or AUTH with a reason code but no property length, client ids with other characters than letters, digits, space and -_,.|/, topics and user names with control characters, and '$' filters outside the topic rules of this library.",
 ["inputs"],"every well-formed packet of every type and version, every optional part present or absent, every field value",
 "One or two packets per type are decoded, nearly all 3.1.1; no 5.0 packet with properties, no AUTH packet and no short topic list is ever decoded.",
 [M+"connect.go",M+"connack.go",M+"publish.go",M+"puback.go",M+"subscribe.go",M+"suback.go",M+"unsubscribe.go",M+"unsuback.go",M+"disconnect.go",M+"auth.go",M+"property.go"],
 [("per-packet decoders","mqttp/*.go:decodeMessage")],["mqttp.Decode","message accessors"])
p("C04","Malformed packets are refused",
 "A packet is refused when its fixed header flags are not those of its type, a publish or will QoS is 3, a reserved bit is set, a mandatory field is missing or truncated, a length prefix or the property block overruns the packet, bytes are left over, text that must be valid UTF-8 is not, a topic or topic filter is invalid, a reason code is not defined for the packet type, or the CONNECT protocol name and level do not match.",
 ["inputs"],"every packet that breaks one of the listed rules, at every position where it can be broken",
 "Tests try around fifteen malformed buffers; rules interact with every field position, type and version.",
 [M+"header.go",M+"connect.go",M+"connack.go",M+"publish.go",M+"puback.go",M+"subscribe.go",M+"suback.go",M+"unsubscribe.go",M+"unsuback.go",M+"disconnect.go",M+"auth.go",M+"property.go"],
 [("reject branches of the decoders","mqttp/*.go:decodeMessage"),("fixed header flag check","mqttp/header.go:decode")],["mqttp.Decode"])
p("C05","Encode and decode are inverse",
 "For every message built through the public API whose field values are valid for its type and version, encoding succeeds and produces the MQTT encoding of those values, and decoding those bytes gives a message with the same observable values. Re-encoding any message that decoding produced gives a packet that decodes to the same values again.",
 ["inputs","histories"],"every sequence of constructor and setter calls leaving a message with valid values, and every accepted packet",
 "The DecodeEncodeEquiv tests use one fixed 3.1.1 packet per type and most compare only lengths.",
 [M+"header.go",M+"property.go",M+"connect.go",M+"connack.go",M+"publish.go",M+"puback.go",M+"subscribe.go",M+"suback.go",M+"unsubscribe.go",M+"unsuback.go",M+"disconnect.go",M+"auth.go"],
 [("encodeMessage/size/decodeMessage per packet","mqttp/*.go")],["mqttp.Encode","IFace.Encode","mqttp.Decode"])
p("C06","Encoding honours the caller's buffer",
 "Whenever encoding succeeds it writes exactly as many bytes as the reported size, leaves every byte of the buffer after them untouched, and produces the same packet whatever the buffer held before and however often the message was sized or encoded before. With a buffer shorter than the reported size it fails with the insufficient-buffer error and the size as count, and writes nothing.",
 ["inputs","histories"],"every message, buffer length (below, at and above the size) and previous buffer content, and every earlier sequence of size and encode calls",
 "Tests encode once into fresh zeroed buffers of 3, 10 or 100 bytes.",
 [M+"header.go",M+"property.go",M+"routines.go"],[("Size/Encode","mqttp/header.go:Encode"),("property block encode","mqttp/property.go:encode")],["IFace.Size","IFace.Encode"])
p("C07","Message properties behave as a typed map over any call history",
 "On a 5.0 message a property that was set successfully reads back with the last value set, through both lookup and iteration and only as a value of its type, until it is overwritten or the properties are discarded, and the message encodes with exactly those properties. Setting an unknown property, one not allowed for the packet type, or a value of a type the property does not have is refused and changes nothing; on 3.x messages setting and iterating are refused and lookup finds nothing.",
 ["histories","inputs"],"every sequence of set, get, iterate, discard, change-version, size and encode calls, every property, packet type and value type",
 "The property tests are empty functions; one publish test sets one property once.",
 [M+"property.go",M+"header.go"],[("property.Set/Get/ForEach/reset","mqttp/property.go"),("version gates","mqttp/header.go:PropertySet")],["IFace.PropertySet","IFace.PropertyGet","IFace.PropertyForEach","IFace.PropertiesDiscard","IFace.Encode"],
 [dict(name="properties,len",meaning="stored values and their encoded length",where="mqttp/property.go:property")])
p("C08","Received property blocks follow the 5.0 property rules",
 "A received property block is accepted only if every property in it is known, allowed for the packet type (and for a will, allowed in a will), complete, minimally encoded, inside the block's declared length, and not repeated unless MQTT allows repeats. Every property of an accepted block is reported with its wire value, and repeated ones keep every occurrence in order.",
 ["inputs"],"every property block for every packet type that carries one, including will properties",
 "No test decodes a non-empty property block.",
 [M+"property.go",M+"connect.go",M+"publish.go"],[("property.decode","mqttp/property.go:decode"),("allowed/type tables","mqttp/property.go:propertyAllowedMessageTypes")],["mqttp.Decode","IFace.PropertyGet"])
p("C09","Protocol version alone decides the wire layout",
 "Properties and 5.0 reason codes are written and read exactly when the message's version is 5.0, whatever was set on the message or how its version was changed before; a 3.x packet never carries them and 5.0-only packets cannot be created or decoded under 3.x. A CONNECT takes its version from the packet itself, and a received message reports the version it was decoded with.",
 ["inputs","histories"],"every packet type, every pair of versions and every history of setters and version changes",
 "Tests are almost all 3.1.1; no test switches the version of a message or encodes one content under two versions.",
 [M+"header.go",M+"connect.go",M+"publish.go",M+"puback.go",M+"subscribe.go",M+"suback.go",M+"unsubscribe.go",M+"unsuback.go",M+"disconnect.go",M+"auth.go",M+"packet.go"],[("version tests in encode/size/decode","mqttp/*.go"),("SetVersion","mqttp/header.go:SetVersion")],["IFace.SetVersion","IFace.Encode","mqttp.Decode","mqttp.New"])
p("C10","Reason codes are confined to what MQTT defines per packet type",
 "For every packet type that carries reason codes, the codes accepted on the wire and by the setters that report errors are exactly those MQTT defines for that type (for SUBACK and UNSUBACK, for that version), and a refused code leaves the message unchanged. The code classification queries agree with MQTT's tables: valid overall, valid for 3.x, valid for 5.0, valid for a packet type, and issued by client, server or both with an error when the code does not belong to the packet type.",
 ["inputs"],"all 256 codes, all packet types, all versions, on decode and through every setter and query",
 "Tests try two or three codes on CONNACK and SUBACK under 3.1.1.",
 [M+"reasonCodes.go",M+"connack.go",M+"suback.go",M+"unsuback.go",M+"puback.go",M+"disconnect.go",M+"auth.go"],[("packetTypeCodeMap","mqttp/reasonCodes.go"),("IsValidForType users","mqttp/*.go")],["ReasonCode methods","mqttp.Decode","SetReturnCode/AddReturnCodes/SetReasonCode"])
p("C11","Topic names, filters and text are validated exactly",
 "A topic filter is accepted exactly when it is non-empty valid text without control characters, '+' fills a whole level, '#' is the whole last level, and a '$' prefix is followed by another level; a shared filter needs a non-empty wildcard-free share name and a non-empty valid filter after it. The parsed parts (full text, filter, share name, '$' prefix, options) are the corresponding pieces of the input; a topic name is accepted exactly when it is valid text without control characters and wildcards.",
 ["inputs"],"every byte string as filter, topic name and text, every options byte",
 "About fifteen hand-picked strings are tried; the language of valid filters is infinite and the share rules interact with it.",
 [M+"types.go",M+"packet.go"],[("NewTopic/NewSubscribeTopic","mqttp/types.go"),("topic regular expressions","mqttp/types.go")],["mqttp.NewTopic","mqttp.NewSubscribeTopic","mqttp.ValidTopic","mqttp.IsValidUTF"])
p("C12","CONNECT flags, will and credentials stay coherent",
 "After any sequence of setter calls, an encoded CONNECT carries a will, user name and password exactly when one is currently set, with the will's QoS and retain flag, and its clean and keep-alive values are the last ones set. Setting credentials replaces the previous ones; a 3.x CONNECT never gets a password without a user name; refused setter calls (will without topic, payload or valid QoS, invalid client id or user name) are reported.",
 ["histories"],"every sequence of SetClean, SetKeepAlive, SetClientID, SetWill, ResetWill, SetCredentials and version changes interleaved with encoding",
 "Two fixed call sequences are tested, without removal, replacement or refusal.",
 [M+"connect.go"],[("connect flag setters","mqttp/connect.go"),("flag driven encode/size","mqttp/connect.go:encodeMessage")],["Connect setters and getters","IFace.Encode"],
 [dict(name="connectFlags",meaning="presence bits that must agree with the stored fields",where="mqttp/connect.go:Connect")])
p("C13","Packet identifiers are carried exactly or refused",
 "A packet identifier that was set or received is reported and encoded as the same 16-bit value, and a message that has none says so. Messages that need an identifier refuse to encode without one, packets that do not carry one never get one on the wire, and a received packet whose identifier is missing or cut short is refused.",
 ["inputs","histories"],"all 65536 identifiers, all packet types, versions and QoS values, every truncation",
 "Tests use identifiers 7 and 100 only and never a packet with half an identifier.",
 [M+"header.go",M+"publish.go",M+"puback.go",M+"subscribe.go",M+"suback.go",M+"unsubscribe.go",M+"unsuback.go"],[("setPacketID/decodePacketID/encodePacketID","mqttp/header.go")],["IFace.ID","SetPacketID","IFace.Encode","mqttp.Decode"])
p("C14","PUBLISH DUP, QoS and RETAIN are independent and validated",
 "After any sequence of setter calls DUP, QoS and RETAIN each hold the last value successfully set, independent of the others, and are encoded in the fixed header as such. An invalid QoS or topic is refused and leaves the message unchanged; a QoS 0 message with DUP set is refused by the encoder. The local publish id is kept as set, changes nothing else and is never sent.",
 ["histories","inputs"],"every sequence of Set, SetDup, SetQoS, SetRetain, SetTopic and SetPayload calls with every QoS value 0-255",
 "No test sequences the flag setters; a QoS value with high bits is never tried.",
 [M+"publish.go"],[("flag masks","mqttp/publish.go"),("encode guards","mqttp/publish.go:encodeMessage")],["Publish setters and getters","IFace.Encode"])
p("C15","Cloning a PUBLISH forwards the right parts and nothing else",
 "A clone has the version asked for, the same topic, payload, QoS, retain flag and expiry time, no DUP flag and no packet identifier; between 5.0 and 5.0 it carries payload format, response topic, correlation data, user properties and content type unchanged and no other property, otherwise no property at all. Neither cloning nor later changes to the clone change the original, or the reverse.",
 ["histories","inputs"],"every source message and target version, and every later sequence of setters on either message",
 "Clone has no test.",
 [M+"publish.go"],[("Clone","mqttp/publish.go:Clone")],["Publish.Clone","Publish getters","IFace.Encode"])
p("C16","Message expiry never fires early or is missed",
 "A PUBLISH without expiry time never expires. With one, it is reported expired exactly when less than one whole second remains, otherwise the remaining time is reported in whole seconds, capped at the 32-bit maximum, and the reported expiry time is the one set.",
 ["inputs"],"every expiry time, past or future, including ones centuries away, relative to the clock",
 "One test waits three seconds around one value.",
 [M+"publish.go"],[("Expired","mqttp/publish.go:Expired")],["Publish.SetExpireAt","Publish.Expired"])
p("C17","Statistic counters lose no update",
 "Under any interleaving of concurrent additions every addition is counted exactly once, each addition returns a total that includes it, and sent and received flow counters never affect each other. Successive difference snapshots add up to exactly the total counted between them, with no amount reported twice or missed.",
 ["schedules","histories"],"every interleaving of concurrent add, load, read and difference calls",
 "The package has no tests, and a lost update needs a particular interleaving.",
 ["vlmonitoring/vlmetrics.go"],[("atomic add","vlmonitoring/vlmetrics.go:AddU64"),("LoadStore","vlmonitoring/vlmetrics.go:LoadStore")],["Counter","FlowCounter","Max","LoadStore"],
 [dict(name="base.uint64",meaning="counter value",where="vlmonitoring/vlmetrics.go:base")])
p("C18","Peak watermarks survive concurrent updates",
 "Under any interleaving of concurrent additions and subtractions that never subtract more than was added before, once the calls have returned the current value is the net sum and the recorded maximum is the highest value the counter ever had. The maximum never decreases and never exceeds a value the counter really had.",
 ["schedules"],"every interleaving of concurrent add, subtract and load calls",
 "The package has no tests, and losing the peak needs two additions interleaved in a particular way.",
 ["vlmonitoring/vlmetrics.go"],[("Max.AddU64/SubU64/Load","vlmonitoring/vlmetrics.go")],["Max.AddU64","Max.SubU64","Max.Load"],
 [dict(name="Max.Max",meaning="highest value seen",where="vlmonitoring/vlmetrics.go:Max")])
p("C19","Plugin configuration is normalised completely or refused",
 "A string-keyed map is returned as it is; a map with arbitrary keys is accepted exactly when every key is a string, and then has the same entries. Anything else is refused with the invalid-type error and no map, and the input is never modified.",
 ["inputs"],"every configuration value: maps of both kinds with any keys and values, and non-maps",
 "The package has no tests, and a dropped or misfiled key depends on map content and iteration order.",
 ["vltypes/config.go"],[("NormalizeConfig","vltypes/config.go")],["vltypes.NormalizeConfig"])
p("C20","Authorization status fails closed and errors stay distinguishable",
 "Only the allow status ever reads as allowed; every other status value, including undefined ones, reads as denied or unknown. Every defined auth and persistence error has its own non-empty text, different from that of undefined values, and undefined access types have no name.",
 ["inputs"],"every integer value of status, access type and error",
 "The packages have no tests; undefined values are what a faulty plugin returns.",
 ["vlauth/auth.go","vlpersistence/types.go"],[("Status.Desc/Error","vlauth/auth.go"),("errorsDesc","vlpersistence/types.go")],["vlauth.Status","vlauth.Error","vlauth.AccessType","vlpersistence.Errors"])
p("C21","A received PUBLISH or acknowledgement outlives its buffer",
 "After a PUBLISH, acknowledgement, CONNACK, SUBACK, UNSUBACK, DISCONNECT or AUTH packet, or the will and properties of a CONNECT, have been decoded, overwriting or reusing the receive buffer changes nothing that the message reports or encodes.",
 ["histories"],"every packet of these types and every later content of the receive buffer, including the next packet read into it",
 "Tests never touch a buffer after decoding it.",
 [M+"publish.go",M+"connect.go",M+"property.go",M+"header.go"],[("copies on decode","mqttp/publish.go:decodeMessage, mqttp/property.go:decodeBinary")],["mqttp.Decode","message accessors"])
p("C22","Messages do not influence each other",
 "What a message reports and encodes depends only on the calls made on that message: creating, decoding, changing or encoding other messages, interleaved in any order or running concurrently in other goroutines, never changes it and never causes a data race. Cloning and reading one PUBLISH from several goroutines at once is safe too.",
 ["schedules","histories"],"every interleaving, sequential or concurrent, of operations on any number of messages",
 "Tests use one message at a time in one goroutine.",
 [M+"packet.go",M+"header.go",M+"property.go",M+"publish.go"],[("no shared mutable package state","mqttp/*.go")],["mqttp.New","mqttp.Decode","IFace.Encode","Publish.Clone"])
p("C23","Topic lists and return codes keep their order and options",
 "Topics added to or received in SUBSCRIBE and UNSUBSCRIBE are visited once each, in order, until the visitor returns an error, which is passed on; SUBACK and UNSUBACK return codes keep their order, including repeats. Each subscription's QoS, no-local, retain-as-published and retain-handling options read as the corresponding bits of its options byte.",
 ["inputs","histories"],"every list of topics and codes of any length, every options byte, and every visitor that stops anywhere",
 "Tests check list lengths, never the content, order or options.",
 [M+"subscribe.go",M+"unsubscribe.go",M+"suback.go",M+"unsuback.go",M+"packet.go",M+"types.go"],[("topic loops","mqttp/subscribe.go, mqttp/unsubscribe.go"),("SubscriptionOptions accessors","mqttp/packet.go")],["ForEachTopic","ReturnCodes","SubscriptionOptions"])
p("C24","Remaining length is exact, minimal and limited",
 "The fixed header of every encoded packet holds the exact number of bytes that follow it, in the shortest variable-length form, and a decoded or encoded message reports that number as its remaining length. A message whose remaining length would exceed 268435455 is refused by size and encode alike, and every length up to that limit is encoded correctly, including at the 1/2/3/4-byte boundaries and with properties of any length.",
 ["inputs"],"every message size, especially around 127/128, 16383/16384, 2097151/2097152 and 268435455/268435456 and beyond 32 bits",
 "The only length tests use tiny packets; the encode tests for large lengths are commented out.",
 [M+"header.go",M+"property.go"],[("setRemainingLength/uvarintCalc","mqttp/header.go"),("property length","mqttp/property.go:Len")],["IFace.Size","IFace.Encode"])
p("C25","Messages are created as asked for",
 "Creating a message by type and version, or with the constructor of its type, gives a message of exactly that type and version with the type's mandatory header flags, no identifier and no properties, for every defined type (AUTH only under 5.0), and an invalid-type error for every other value. Type names, descriptions, default flags and validity per version agree with this for all 256 type values.",
 ["inputs"],"all 256 type values and all protocol versions",
 "Tests cover the 15 defined types under 3.1.1.",
 [M+"packet.go",M+"packetType.go",M+"header.go"],[("newMessage","mqttp/packet.go"),("type tables","mqttp/packetType.go")],["mqttp.New","mqttp.Type"])
p("C26","Length-prefixed fields are read and written within bounds",
 "Reading a length-prefixed field returns exactly the announced bytes and the number consumed, or the insufficient-data error when the prefix or content is incomplete. Writing produces the two-byte length and the content and touches nothing else, refuses content above 65535 bytes, and refuses a too short buffer without writing, reporting the size needed.",
 ["inputs"],"every buffer and content length, including 0, 65535, 65536 and every too-short buffer",
 "Tests use five strings and two error cases.",
 [M+"routines.go"],[("ReadLPBytes/WriteLPBytes","mqttp/routines.go")],["mqttp.ReadLPBytes","mqttp.WriteLPBytes"])
p("C27","A plugin is announced as its descriptor says",
 "Whatever version, name, description and type a plugin's descriptor holds, each is reported unaltered under its own name, any number of times and in any order, following every change of the descriptor; the plugin's version comes second, behind the version of the API the plugin was built with.",
 ["inputs","histories"],"every descriptor, and every order of changing and asking",
 "The package has no tests, and two exchanged or altered texts go unnoticed by the compiler.",
 ["vlplugin/plugin.go"],[("Descriptor","vlplugin/plugin.go")],["vlplugin.Info"])
p("C28","Errors and reason codes are told apart by their texts",
 "Every defined error of the packet library, property error, reason code and QoS value has a non-empty text of its own: no other value of its kind, defined or not, reads the same. A reason code's description and its error text agree, and undefined values have a text too.",
 ["inputs"],"every value of the byte-wide kinds, property errors around zero, the powers of two and the 32-bit limits",
 "Tests compare error values, never their texts; a log that reads 'Unknown error' is all an operator has.",
 [M+"errors.go",M+"property.go",M+"reasonCodes.go",M+"qos.go"],[("Error.Error","mqttp/errors.go"),("PropertyError.Error","mqttp/property.go"),("codeDescMap","mqttp/reasonCodes.go")],["mqttp.Error","mqttp.ReasonCode","mqttp.PropertyError"])
open(ROOT+"/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P: assert len(x["title"])<=80, x["title"]
