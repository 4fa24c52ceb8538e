From e9c67c29b0bcff0b0d6e0eda5f8fc2cb9105b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 01/25] fix: UNSUBSCRIBE decode stops after the last topic

A topic entry is only a length prefixed string, there is no options byte
after it. Subtracting one byte too many per topic ended the loop before the
last topic when the list had short topics, and the packet was refused.
---
 mqttp/unsubscribe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index c56ef2b..bf60239 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -91,7 +91,7 @@ func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
 
 		msg.topics = append(msg.topics, topic)
 
-		remLen = remLen - n - 1
+		remLen -= n
 	}
 
 	// [MQTT-3.10.3-2]
-- 
2.43.0


From 497887132ebf977e565d0c8b2b671ca4449b06fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 02/25] fix: UNSUBSCRIBE encodes its 5.0 properties

Decode already expects the mandatory property length of a 5.0 UNSUBSCRIBE.
---
 mqttp/unsubscribe.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index bf60239..ea35d61 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -121,6 +121,15 @@ func (msg *UnSubscribe) encodeMessage(dst []byte) (int, error) {
 
 	total := msg.encodePacketID(dst)
 
+	// V5.0   [MQTT-3.10.2.1]
+	if msg.version == ProtocolV50 {
+		n, err = msg.properties.encode(dst[total:])
+		total += n
+		if err != nil {
+			return total, err
+		}
+	}
+
 	for _, t := range msg.topics {
 		n, err = WriteLPBytes(dst[total:], t.full)
 		total += n
@@ -142,6 +151,11 @@ func (msg *UnSubscribe) size() int {
 	// packet ID
 	total := 2
 
+	// v5.0 [MQTT-3.10.2.1]
+	if msg.version == ProtocolV50 {
+		total += msg.properties.FullLen()
+	}
+
 	for _, t := range msg.topics {
 		total += 2 + len(t.full)
 	}
-- 
2.43.0


From 9933baeacd1d63b4419ff7c98821dfd5d3bacdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 03/25] fix: SUBACK decode accepts every 5.0 reason code

The 3.1.1 return code check was applied to 5.0 packets too.
---
 mqttp/suback.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqttp/suback.go b/mqttp/suback.go
index 1ed7f89..488deb5 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -87,8 +87,10 @@ func (msg *SubAck) decodeMessage(from []byte) (int, error) {
 
 	for i, q := range from[offset : offset+numCodes] {
 		code := ReasonCode(q)
-		if msg.version == ProtocolV50 && !code.IsValidForType(msg.mType) {
-			return offset + i, CodeProtocolError
+		if msg.version == ProtocolV50 {
+			if !code.IsValidForType(msg.mType) {
+				return offset + i, CodeProtocolError
+			}
 		} else if !QosType(code).IsValidFull() {
 			return offset + i, CodeRefusedServerUnavailable
 		}
-- 
2.43.0


From 974cad0d100ce74a18a948d7a47c92e35aced16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 04/25] fix: UNSUBACK accepts exactly the 5.0 UNSUBACK reason
 codes

Setting a valid 5.0 code was refused by the SUBACK 3.1.1 check, and decode
did not check the received codes at all.
---
 mqttp/unsuback.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index e6eda4e..a5f40e6 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -51,8 +51,10 @@ func (msg *UnSubAck) ReturnCodes() []ReasonCode {
 // An error is returned if any of the QoS values are not valid.
 func (msg *UnSubAck) AddReturnCodes(ret []ReasonCode) error {
 	for _, c := range ret {
-		if msg.version == ProtocolV50 && !c.IsValidForType(msg.mType) {
-			return ErrInvalidReturnCode
+		if msg.version == ProtocolV50 {
+			if !c.IsValidForType(msg.mType) {
+				return ErrInvalidReturnCode
+			}
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
@@ -79,7 +81,10 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 			return offset, err
 		}
 
-		for _, c := range from[offset:msg.remLen] {
+		for i, c := range from[offset:msg.remLen] {
+			if !ReasonCode(c).IsValidForType(msg.mType) {
+				return offset + i, CodeProtocolError
+			}
 			msg.returnCodes = append(msg.returnCodes, ReasonCode(c))
 		}
 	}
-- 
2.43.0


From 5944652b62689e9c0fc62f601d6b1214c3ecd159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 05/25] fix: AUTH SetReasonCode accepts the AUTH reason codes

It tested the current reason instead of the new one, with the condition
inverted, and so refused every code.
---
 mqttp/auth.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index 1806bbd..035b8a9 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -48,8 +48,8 @@ func (msg *Auth) ReasonCode() ReasonCode {
 
 // SetReasonCode set authentication reason code
 func (msg *Auth) SetReasonCode(c ReasonCode) error {
-	if msg.authReason.IsValidForType(msg.mType) {
-		return ErrInvalidMessageType
+	if !c.IsValidForType(msg.mType) {
+		return ErrInvalidReturnCode
 	}
 
 	msg.authReason = c
-- 
2.43.0


From 9db10c99b9b1153b96c804d00d3bf845e7ce3ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 06/25] fix: AUTH encode keeps the reason code

The properties were written over it.
---
 mqttp/auth.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index 035b8a9..7bd73b8 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -90,6 +90,8 @@ func (msg *Auth) decodeMessage(from []byte) (int, error) {
 func (msg *Auth) encodeMessage(to []byte) (int, error) {
 	offset := 0
 	to[offset] = byte(msg.authReason)
+	offset++
+
 	n, err := msg.properties.encode(to[offset:])
 
 	return offset + n, err
-- 
2.43.0


From 89fb78b3db9304d9ab6b5cf53587b8c39c37055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 07/25] fix: empty property block is written to the buffer

The zero length was counted but not written, so the packet kept whatever
byte the buffer held before.
---
 mqttp/property.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 4940c15..08691be 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -438,10 +438,6 @@ func (p *property) encode(to []byte) (int, error) {
 		return 0, ErrInsufficientBufferSize
 	}
 
-	if pLen == 1 {
-		return 1, nil
-	}
-
 	var offset int
 	var err error
 	// Encode variable length header
-- 
2.43.0


From aefcf9725b34eccfc7e757dc1e29604b6190bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 08/25] fix: property set checks the value type and keeps the
 length exact

Replacing a value counted the old one too, a value of a wrong type was
stored and made encode panic, a list was accepted for properties that must
not repeat, and setting a property on a message switched to 5.0 panicked.
A refused set now changes nothing.
---
 mqttp/property.go | 49 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 08691be..ebf6155 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -348,12 +348,43 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 		return ErrPropertyPacketTypeMismatch
 	}
 
+	// list of values is encoded as repeated property
+	if isPropertyList(propertyTypeMap[id], val) && !id.DupAllowed(t) {
+		return ErrPropertyTypeMismatch
+	}
+
 	fn := propertyCalcLen[propertyTypeMap[id]]
 	l, err := fn(id, val)
+	if err != nil {
+		return err
+	}
+
+	// properties are not allocated if packet has been created with version before V5.0
+	if p.properties == nil {
+		p.reset()
+	}
+
+	if prev, ok := p.properties[id]; ok {
+		if prevLen, e := fn(id, prev); e == nil {
+			p.len -= prevLen
+		}
+	}
+
 	p.len += l
 	p.properties[id] = val
 
-	return err
+	return nil
+}
+
+func isPropertyList(t PropertyType, val interface{}) bool {
+	switch val.(type) {
+	case []uint16, []uint32, []string, []StringPair, [][]byte:
+		return true
+	case []byte:
+		return t != PropertyTypeBinary
+	}
+
+	return false
 }
 
 // Get property value
@@ -470,7 +501,7 @@ func calcLenByte(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -491,7 +522,7 @@ func calcLenShort(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -512,7 +543,7 @@ func calcLenInt(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -533,7 +564,7 @@ func calcLenVarInt(id PropertyID, val interface{}) (int, error) {
 			l += calc(v)
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -554,7 +585,7 @@ func calcLenString(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -570,12 +601,12 @@ func calcLenBinary(id PropertyID, val interface{}) (int, error) {
 	switch valueType := val.(type) {
 	case []byte:
 		l = calc(len(valueType))
-	case [][]string:
+	case [][]byte:
 		for _, v := range valueType {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -596,7 +627,7 @@ func calcLenStringPair(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v.K), len(v.V))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
-- 
2.43.0


From e2b03a37bfe7a04c949ffaf588cd89fc112686e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 09/25] fix: packet with missing or cut packet identifier is
 refused

PUBLISH with QoS 1 or 2, acknowledgements, SUBACK and UNSUBACK with fewer
than two bytes left for the identifier were accepted with a made up one.
---
 mqttp/header.go      | 9 +++++++--
 mqttp/puback.go      | 5 ++++-
 mqttp/publish.go     | 6 +++++-
 mqttp/suback.go      | 5 ++++-
 mqttp/subscribe.go   | 5 ++++-
 mqttp/unsuback.go    | 5 ++++-
 mqttp/unsubscribe.go | 5 ++++-
 7 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index c726b3e..d0423a8 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -196,12 +196,17 @@ func (h *header) setPacketID(id IDType) {
 	binary.BigEndian.PutUint16(h.packetID, uint16(id))
 }
 
-func (h *header) decodePacketID(src []byte) int {
+func (h *header) decodePacketID(src []byte) (int, error) {
+	// [MQTT-2.3.1]
+	if len(src) < 2 {
+		return 0, CodeMalformedPacket
+	}
+
 	if len(h.packetID) == 0 {
 		h.packetID = make([]byte, 2)
 	}
 
-	return copy(h.packetID, src)
+	return copy(h.packetID, src), nil
 }
 
 func (h *header) encodePacketID(dst []byte) int {
diff --git a/mqttp/puback.go b/mqttp/puback.go
index ba25a8c..b73dd04 100644
--- a/mqttp/puback.go
+++ b/mqttp/puback.go
@@ -77,7 +77,10 @@ func (msg *Ack) Reason() ReasonCode {
 }
 
 func (msg *Ack) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		// [MQTT-3.4.2.1]
diff --git a/mqttp/publish.go b/mqttp/publish.go
index bee470d..34060a5 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -298,7 +298,11 @@ func (msg *Publish) decodeMessage(from []byte) (int, error) {
 	// The packet identifier field is only present in the PUBLISH packets where the
 	// QoS level is 1 or 2
 	if msg.QoS() != QoS0 {
-		offset += msg.decodePacketID(from[offset:])
+		n, err = msg.decodePacketID(from[offset:])
+		offset += n
+		if err != nil {
+			return offset, err
+		}
 	}
 
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/suback.go b/mqttp/suback.go
index 488deb5..612f8cc 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -73,7 +73,10 @@ func (msg *SubAck) SetPacketID(v IDType) {
 
 // decode message
 func (msg *SubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index 70dcd59..e6b411e 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -71,7 +71,10 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 		return 0, CodeProtocolError
 	}
 
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	// v5 [MQTT-3.1.2.11] specifies properties in variable header
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index a5f40e6..22301c5 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -72,7 +72,10 @@ func (msg *UnSubAck) AddReturnCode(ret ReasonCode) error {
 
 // decode message
 func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 && (int(msg.remLen)-offset) > 0 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index ea35d61..bd9a3a3 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -62,7 +62,10 @@ func (msg *UnSubscribe) SetPacketID(v IDType) {
 // when io.Reader returns EOF or error. The first return value is the number of
 // bytes read from io.Reader. The second is error if decode encounters any problems.
 func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	remLen := int(msg.remLen) - offset
 
-- 
2.43.0


From 40cd731fa706c3fc8a60383a339ae5bf2cd5dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 10/25] fix: variable byte integers in properties must be
 minimal and fit 4 bytes

Longer encodings of the property length, a property identifier or a value
were accepted, but their length was recalculated as if they were minimal,
so the message reported and re-encoded a property length that did not match
its properties. Values above the 4 byte limit could be set and encoded.
---
 mqttp/header.go   | 11 +++++++++++
 mqttp/property.go | 12 +++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index d0423a8..61409e1 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -340,6 +340,17 @@ func uvarint(buf []byte) (uint32, int) {
 	return 0, 0
 }
 
+// uvarintMinimal decodes variable byte integer as uvarint does but treats
+// encodings which are not the shortest possible or exceed 4 bytes as overflow [MQTT-1.5.5-1]
+func uvarintMinimal(buf []byte) (uint32, int) {
+	v, n := uvarint(buf)
+	if n > 4 || (n > 0 && n != uvarintCalc(v)) {
+		return 0, -n
+	}
+
+	return v, n
+}
+
 func uvarintCalc(x uint32) int {
 	i := 0
 	for x >= 0x80 {
diff --git a/mqttp/property.go b/mqttp/property.go
index ebf6155..cc47e3a 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -416,7 +416,7 @@ func writePrefixID(id PropertyID, b []byte) int {
 func (p *property) decode(t Type, from []byte) (int, error) {
 	offset := 0
 	// property length is encoded as variable byte integer
-	pLen, lCount := uvarint(from)
+	pLen, lCount := uvarintMinimal(from)
 	if lCount <= 0 {
 		offset += -lCount
 		return offset, CodeMalformedPacket
@@ -429,7 +429,7 @@ func (p *property) decode(t Type, from []byte) (int, error) {
 	for pLen != 0 {
 		slice := from[offset:]
 
-		idVal, count := uvarint(slice)
+		idVal, count := uvarintMinimal(slice)
 		if count <= 0 {
 			return offset - count, CodeMalformedPacket
 		}
@@ -558,9 +558,15 @@ func calcLenVarInt(id PropertyID, val interface{}) (int, error) {
 
 	switch valueType := val.(type) {
 	case uint32:
+		if valueType > uint32(maxRemainingLength) {
+			return 0, ErrPropertyTypeMismatch
+		}
 		l = calc(valueType)
 	case []uint32:
 		for _, v := range valueType {
+			if v > uint32(maxRemainingLength) {
+				return 0, ErrPropertyTypeMismatch
+			}
 			l += calc(v)
 		}
 	default:
@@ -676,7 +682,7 @@ func decodeInt(p *property, id PropertyID, from []byte) (int, error) {
 func decodeVarInt(p *property, id PropertyID, from []byte) (int, error) {
 	offset := 0
 
-	v, cnt := uvarint(from[offset:])
+	v, cnt := uvarintMinimal(from[offset:])
 	if cnt <= 0 {
 		return offset, CodeMalformedPacket
 	}
-- 
2.43.0


From 8722ebfee84a12888c68b5ea83d389cb11fa5dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 11/25] fix: repeated subscription identifiers of a PUBLISH are
 all kept

Only the last one was stored while all were counted in the property length,
so the message re-encoded as a malformed packet.
---
 mqttp/property.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index cc47e3a..96f74ab 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -59,6 +59,7 @@ type PropertyToType interface {
 	AsByte() (byte, error)
 	AsShort() (uint16, error)
 	AsInt() (uint32, error)
+	AsInts() ([]uint32, error)
 	AsString() (string, error)
 	AsStringPair() (StringPair, error)
 	AsStringPairs() ([]StringPair, error)
@@ -100,6 +101,18 @@ func (t *propertyToType) AsInt() (uint32, error) {
 	return 0, ErrPropertyWrongType
 }
 
+// AsInts values of the property which might be repeated
+func (t *propertyToType) AsInts() ([]uint32, error) {
+	switch v := t.v.(type) {
+	case []uint32:
+		return v, nil
+	case uint32:
+		return []uint32{v}, nil
+	}
+
+	return []uint32{}, ErrPropertyWrongType
+}
+
 func (t *propertyToType) AsString() (string, error) {
 	if v, ok := t.v.(string); ok {
 		return v, nil
@@ -688,7 +701,15 @@ func decodeVarInt(p *property, id PropertyID, from []byte) (int, error) {
 	}
 	offset += cnt
 
-	p.properties[id] = v
+	// property repeated, keep all of the values
+	switch prev := p.properties[id].(type) {
+	case uint32:
+		p.properties[id] = []uint32{prev, v}
+	case []uint32:
+		p.properties[id] = append(prev, v)
+	default:
+		p.properties[id] = v
+	}
 
 	return offset, nil
 }
-- 
2.43.0


From 37323e69894e2c90acf6366812eefb22958d3939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 12/25] fix: SetCredentials checks and replaces the credentials

It tested the previous credentials instead of the given ones, kept a
previous user name or password that was not given again, and accepted user
names with control characters which decode refuses.
---
 mqttp/connect.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 6b2c6be..9aca9d8 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -162,18 +162,22 @@ func (msg *Connect) Credentials() ([]byte, []byte) {
 
 // SetCredentials set username and password
 func (msg *Connect) SetCredentials(u []byte, p []byte) error {
-	msg.connectFlags &= ^maskConnFlagUsername
-	msg.connectFlags &= ^maskConnFlagPassword
-
 	// MQTT 3.1.1 does not allow password without user name
-	if (len(msg.username) == 0 && len(msg.password) != 0) && msg.version < ProtocolV50 {
+	if (len(u) == 0 && len(p) != 0) && msg.version < ProtocolV50 {
 		return ErrInvalidArgs
 	}
 
+	// [MQTT-3.1.3-11]
+	if !IsValidUTF(u) {
+		return ErrInvalidUtf8
+	}
+
+	msg.connectFlags &= ^maskConnFlagUsername
+	msg.connectFlags &= ^maskConnFlagPassword
+	msg.username = nil
+	msg.password = nil
+
 	if len(u) != 0 {
-		if !utf8.Valid(u) {
-			return ErrInvalidUtf8
-		}
 		msg.connectFlags |= maskConnFlagUsername
 		msg.username = u
 	}
-- 
2.43.0


From dfcea792547ac5f88948e82639e408d2185a3e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 13/25] fix: 3.x CONNECT does not encode a password without
 user name

Credentials set under 5.0 stay when the version of the message changes.
---
 mqttp/connect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 9aca9d8..fd08595 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -227,6 +227,11 @@ func (msg *Connect) encodeMessage(to []byte) (int, error) {
 		return 0, ErrInvalidProtocolVersion
 	}
 
+	// V3.1.1 [MQTT-3.1.2-22]
+	if (!msg.usernameFlag() && msg.passwordFlag()) && msg.version < ProtocolV50 {
+		return 0, ErrInvalidArgs
+	}
+
 	// V3.1.1 [MQTT-3.1.2.1]
 	// V5.0   [MQTT-3.1.2.1]
 	offset, err := WriteLPBytes(to, []byte(SupportedVersions[msg.version]))
-- 
2.43.0


From b74f4c931c61e9977d15da2e9a4fc0458875332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 14/25] fix: cloned PUBLISH gets the requested version

Clone ignored its argument, so a 5.0 message cloned for a 3.1.1 session was
encoded as 5.0 and the reverse.
---
 mqttp/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index 34060a5..45062b1 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -71,7 +71,7 @@ func (msg *Publish) Expired() (time.Time, uint32, bool) {
 // qos, topic, payload, retain and properties
 func (msg *Publish) Clone(v ProtocolVersion) (*Publish, error) {
 	// message version should be same as session as encode/decode depends on it
-	pkt := NewPublish(msg.version)
+	pkt := NewPublish(v)
 
 	// [MQTT-3.3.1-9]
 	// [MQTT-3.3.1-3]
-- 
2.43.0


From 17a9d7eb0863f42640ecb5045a5ab842e222d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 15/25] fix: remaining length longer than 4 bytes is malformed

A fifth byte was accepted, or reported as insufficient data for ever, so a
reader would keep waiting for a packet that cannot be completed.
---
 mqttp/header.go | 7 ++++++-
 mqttp/packet.go | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index 61409e1..817e77f 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -281,10 +281,15 @@ func (h *header) decode(from []byte) (int, error) {
 	offset++
 
 	remLen, m := uvarint(from[offset:])
-	if m <= 0 {
+	if m == 0 && len(from[offset:]) <= maxRemainingLengthBytes {
 		return offset, ErrInsufficientDataSize
 	}
 
+	// [MQTT-2.1.4] remaining length is encoded into 4 bytes at most
+	if m <= 0 || m > maxRemainingLengthBytes {
+		return offset, CodeMalformedPacket
+	}
+
 	fhLen := m + 1
 
 	offset += m
diff --git a/mqttp/packet.go b/mqttp/packet.go
index fae93f3..1f616f6 100644
--- a/mqttp/packet.go
+++ b/mqttp/packet.go
@@ -7,6 +7,8 @@ import (
 const (
 	// maxFixedHeaderLength int    = 5
 	maxRemainingLength int32 = (256 * 1024 * 1024) - 1 // 256 MB
+	// maxRemainingLengthBytes maximum size of encoded remaining length
+	maxRemainingLengthBytes int = 4
 )
 const (
 	//  maskHeaderType  byte = 0xF0
-- 
2.43.0


From e8f4cf5a769e5f1122dac1191cd847a38a9e6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 16/25] fix: complete packet with a broken length prefix is
 malformed

It was reported as insufficient data, with a size below what was received.
---
 mqttp/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index 817e77f..0b3e190 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -317,6 +317,11 @@ func (h *header) decode(from []byte) (int, error) {
 		return offset, CodeMalformedPacket
 	}
 
+	// whole packet is available, more data does not make field cut short complete
+	if err == ErrInsufficientDataSize {
+		err = CodeMalformedPacket
+	}
+
 	return offset, err
 }
 
-- 
2.43.0


From feea56aa10ed537ef14ca4a8f5cd7a9252ac325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 17/25] fix: message of 4 GiB or more is refused

The size was cut to 32 bits before it was compared with the limit.
---
 mqttp/header.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index 0b3e190..3bb8b11 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -148,6 +148,10 @@ func (h *header) SetVersion(v ProtocolVersion) {
 func (h *header) Size() (int, error) {
 	ml := h.cb.size()
 
+	if ml > int(maxRemainingLength) || ml < 0 {
+		return 0, ErrInvalidLength
+	}
+
 	if err := h.setRemainingLength(int32(ml)); err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 70ae49b4a0b5c4f682f9986c1c4a196ea4299d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 18/25] fix: reason code issuers differ and unknown codes are
 an error

All issuer constants were 0, the error was returned for the known codes, and
CONNACK, SUBACK and UNSUBACK codes are only ever sent by a server.
---
 mqttp/reasonCodes.go | 54 ++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 0c39ea6..9348054 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -8,7 +8,7 @@ type CodeIssuer byte
 
 // nolint: golint
 const (
-	CodeIssuerServer CodeIssuer = 0x00
+	CodeIssuerServer CodeIssuer = iota
 	CodeIssuerClient
 	CodeIssuerBoth
 	CodeIssuerInvalid
@@ -69,11 +69,11 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 }{
 	CONNACK: {
 		CodeSuccess:                            {iss: CodeIssuerServer, desc: "The Connection is accepted"},
-		CodeRefusedUnacceptableProtocolVersion: {iss: CodeIssuerClient, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
-		CodeRefusedIdentifierRejected:          {iss: CodeIssuerClient, desc: "The Client identifier is not allowed"},
-		CodeRefusedServerUnavailable:           {iss: CodeIssuerClient, desc: "Server refused connection"},
-		CodeRefusedBadUsernameOrPassword:       {iss: CodeIssuerClient, desc: "The data in the user name or password is malformed"},
-		CodeRefusedNotAuthorized:               {iss: CodeIssuerClient, desc: "The Client is not authorized to connect"},
+		CodeRefusedUnacceptableProtocolVersion: {iss: CodeIssuerServer, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
+		CodeRefusedIdentifierRejected:          {iss: CodeIssuerServer, desc: "The Client identifier is not allowed"},
+		CodeRefusedServerUnavailable:           {iss: CodeIssuerServer, desc: "Server refused connection"},
+		CodeRefusedBadUsernameOrPassword:       {iss: CodeIssuerServer, desc: "The data in the user name or password is malformed"},
+		CodeRefusedNotAuthorized:               {iss: CodeIssuerServer, desc: "The Client is not authorized to connect"},
 		CodeUnspecifiedError:                   {iss: CodeIssuerServer, desc: "The Server does not wish to reveal the reason for the failure, or none of the other Return Codes apply"},
 		CodeMalformedPacket:                    {iss: CodeIssuerServer, desc: "Data within the CONNECT Packet was not consistent with this specification"},
 		CodeImplementationSpecificError:        {iss: CodeIssuerServer, desc: "The CONNECT is valid but is not accepted by this Server"},
@@ -124,27 +124,27 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodePacketIDNotFound: {iss: CodeIssuerBoth, desc: "The IDType is not known. Possible a mismatch between the Session state on the Client and Server"},
 	},
 	SUBACK: {
-		0:                                     {iss: CodeIssuerBoth, desc: "The subscription is accepted and the maximum QoS sent will be QoS 0. This might be a lower QoS than was requested"}, // Maximum QoS 0
-		1:                                     {iss: CodeIssuerBoth, desc: "The subscription is accepted and the maximum QoS sent will be QoS 1. This might be a lower QoS than was requested"}, // Maximum QoS 1
-		2:                                     {iss: CodeIssuerBoth, desc: "The subscription is accepted and any received QoS will be sent to this subscription"},                               // Maximum QoS 2
-		CodeUnspecifiedError:                  {iss: CodeIssuerBoth, desc: "The subscription is not accepted and the Server either does not wish to reveal the reason or none of the other Return Codes apply"},
-		CodeImplementationSpecificError:       {iss: CodeIssuerBoth, desc: "The SUBSCRIBE is valid but the Server does not accept i"},
-		CodeNotAuthorized:                     {iss: CodeIssuerBoth, desc: "The Client is not authorized to make this subscription"},
-		CodeInvalidTopicFilter:                {iss: CodeIssuerBoth, desc: "The Topic Filter is correctly formed but is not allowed for this client"},
-		CodePacketIDInUse:                     {iss: CodeIssuerBoth, desc: "The specified packet identifier is already in use"},
-		CodeQuotaExceeded:                     {iss: CodeIssuerBoth, desc: "An implementation imposed limit has been exceeded"},
-		CodeSharedSubscriptionNotSupported:    {iss: CodeIssuerBoth, desc: "The Server does not support shared subscriptions for this Client"},
-		CodeSubscriptionIDNotSupported:        {iss: CodeIssuerBoth, desc: "The Server does not support subscription identifiers; the subscription is not accepted"},
-		CodeWildcardSubscriptionsNotSupported: {iss: CodeIssuerBoth, desc: "The Server does not support Wildcard subscription; the subscription is not accepted"},
+		0:                                     {iss: CodeIssuerServer, desc: "The subscription is accepted and the maximum QoS sent will be QoS 0. This might be a lower QoS than was requested"}, // Maximum QoS 0
+		1:                                     {iss: CodeIssuerServer, desc: "The subscription is accepted and the maximum QoS sent will be QoS 1. This might be a lower QoS than was requested"}, // Maximum QoS 1
+		2:                                     {iss: CodeIssuerServer, desc: "The subscription is accepted and any received QoS will be sent to this subscription"},                               // Maximum QoS 2
+		CodeUnspecifiedError:                  {iss: CodeIssuerServer, desc: "The subscription is not accepted and the Server either does not wish to reveal the reason or none of the other Return Codes apply"},
+		CodeImplementationSpecificError:       {iss: CodeIssuerServer, desc: "The SUBSCRIBE is valid but the Server does not accept i"},
+		CodeNotAuthorized:                     {iss: CodeIssuerServer, desc: "The Client is not authorized to make this subscription"},
+		CodeInvalidTopicFilter:                {iss: CodeIssuerServer, desc: "The Topic Filter is correctly formed but is not allowed for this client"},
+		CodePacketIDInUse:                     {iss: CodeIssuerServer, desc: "The specified packet identifier is already in use"},
+		CodeQuotaExceeded:                     {iss: CodeIssuerServer, desc: "An implementation imposed limit has been exceeded"},
+		CodeSharedSubscriptionNotSupported:    {iss: CodeIssuerServer, desc: "The Server does not support shared subscriptions for this Client"},
+		CodeSubscriptionIDNotSupported:        {iss: CodeIssuerServer, desc: "The Server does not support subscription identifiers; the subscription is not accepted"},
+		CodeWildcardSubscriptionsNotSupported: {iss: CodeIssuerServer, desc: "The Server does not support Wildcard subscription; the subscription is not accepted"},
 	},
 	UNSUBACK: {
-		CodeSuccess:                     {iss: CodeIssuerBoth, desc: "The subscription is deleted"},
-		CodeNoSubscriptionExisted:       {iss: CodeIssuerBoth, desc: "No matching subscription existed"},
-		CodeUnspecifiedError:            {iss: CodeIssuerBoth, desc: "The unsubscribe could not be completed and the Server either does not wish to reveal the reason or none of the other Return Codes apply"},
-		CodeImplementationSpecificError: {iss: CodeIssuerBoth, desc: "The UNSUBSCRIBE is valid but the Server does not accept it"},
-		CodeNotAuthorized:               {iss: CodeIssuerBoth, desc: "The client is not authorized to unsubscribe"},
-		CodeInvalidTopicFilter:          {iss: CodeIssuerBoth, desc: "The topic filter is correctly formed but is not allowed for this client"},
-		CodePacketIDInUse:               {iss: CodeIssuerBoth, desc: "The specified packet identifier is already in use"},
+		CodeSuccess:                     {iss: CodeIssuerServer, desc: "The subscription is deleted"},
+		CodeNoSubscriptionExisted:       {iss: CodeIssuerServer, desc: "No matching subscription existed"},
+		CodeUnspecifiedError:            {iss: CodeIssuerServer, desc: "The unsubscribe could not be completed and the Server either does not wish to reveal the reason or none of the other Return Codes apply"},
+		CodeImplementationSpecificError: {iss: CodeIssuerServer, desc: "The UNSUBSCRIBE is valid but the Server does not accept it"},
+		CodeNotAuthorized:               {iss: CodeIssuerServer, desc: "The client is not authorized to unsubscribe"},
+		CodeInvalidTopicFilter:          {iss: CodeIssuerServer, desc: "The topic filter is correctly formed but is not allowed for this client"},
+		CodePacketIDInUse:               {iss: CodeIssuerServer, desc: "The specified packet identifier is already in use"},
 	},
 	DISCONNECT: {
 		CodeSuccess:                           {iss: CodeIssuerClient, desc: "Close the connection normally. Do not send the Will Message"},
@@ -249,10 +249,10 @@ func (c ReasonCode) PacketTypeDir(p Type) (CodeIssuer, error) {
 	}
 
 	if issuer, kk := pT[c]; kk {
-		return issuer.iss, ErrInvalidReturnCode
+		return issuer.iss, nil
 	}
 
-	return CodeIssuerInvalid, nil
+	return CodeIssuerInvalid, ErrInvalidReturnCode
 }
 
 // Value convert reason code to byte type
-- 
2.43.0


From e22e696b36b73ce30d4b1ecf78781c7801415764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 19/25] fix: CONNACK and PUBACK accept all of their 5.0 reason
 codes

CONNACK 0x82 and 0x99 and PUBACK 0x91 were missing from the table.
---
 mqttp/reasonCodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 9348054..5c2f347 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -76,6 +76,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeRefusedNotAuthorized:               {iss: CodeIssuerServer, desc: "The Client is not authorized to connect"},
 		CodeUnspecifiedError:                   {iss: CodeIssuerServer, desc: "The Server does not wish to reveal the reason for the failure, or none of the other Return Codes apply"},
 		CodeMalformedPacket:                    {iss: CodeIssuerServer, desc: "Data within the CONNECT Packet was not consistent with this specification"},
+		CodeProtocolError:                      {iss: CodeIssuerServer, desc: "The CONNECT packet content does not follow the protocol"},
 		CodeImplementationSpecificError:        {iss: CodeIssuerServer, desc: "The CONNECT is valid but is not accepted by this Server"},
 		CodeUnsupportedProtocol:                {iss: CodeIssuerServer, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
 		CodeInvalidClientID:                    {iss: CodeIssuerServer, desc: "The Client Identifier is a valid string but is not allowed by the Server"},
@@ -88,6 +89,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeInvalidTopicName:                   {iss: CodeIssuerServer, desc: "The Will Topic Name is not malformed, but is not accepted by this Server"},
 		CodePacketTooLarge:                     {iss: CodeIssuerServer, desc: "The Accept Packet exceeded the maximum permissible size"},
 		CodeQuotaExceeded:                      {iss: CodeIssuerServer, desc: "An implementation or administrative imposed limit has been exceeded"},
+		CodeInvalidPayloadFormat:               {iss: CodeIssuerServer, desc: "The Will Payload does not match the specified Payload Format Indicator"},
 		CodeRetainNotSupported:                 {iss: CodeIssuerServer, desc: "The Server does not support retained messages, and Will Retain was set to 1"},
 		CodeNotSupportedQoS:                    {iss: CodeIssuerServer, desc: "The Server does not support the QoS set in Will QoS"},
 		CodeUseAnotherServer:                   {iss: CodeIssuerServer, desc: "The Client should temporarily use another server"},
@@ -101,6 +103,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeImplementationSpecificError: {iss: CodeIssuerBoth, desc: "The PUBLISH is valid but the receiver is not willing to accept it"},
 		CodeNotAuthorized:               {iss: CodeIssuerBoth, desc: "The PUBLISH is not authorized"},
 		CodeInvalidTopicName:            {iss: CodeIssuerBoth, desc: "The topic name is valid, but is not accepted"},
+		CodePacketIDInUse:               {iss: CodeIssuerBoth, desc: "The IDType is already in use. Possible mismatch in the session state between the Client and Server"},
 		CodeQuotaExceeded:               {iss: CodeIssuerBoth, desc: "An implementation imposed limit has been exceeded"},
 		CodeInvalidPayloadFormat:        {iss: CodeIssuerBoth, desc: "The payload format does not match the one specified in the Payload Format Indicator"},
 	},
-- 
2.43.0


From d59516003666d903b812c85dc64a6c6fd57e209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 20/25] fix: IsValidV5 follows the 5.0 reason code table

Every value between 0x10 and 0xA2 was valid, defined or not, while granted
QoS 1 and 2 and disconnect with will message were not.
---
 mqttp/reasonCodes.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 5c2f347..a45aa59 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -278,10 +278,12 @@ func (c ReasonCode) IsValidV3() bool {
 
 // IsValidV5 check either reason code is valid for MQTT V5.0 or not
 func (c ReasonCode) IsValidV5() bool {
-	if c == CodeSuccess || (c >= CodeNoMatchingSubscribers && c <= CodeWildcardSubscriptionsNotSupported) {
+	switch c {
+	case 0x01, 0x02, 0x04: // granted QoS 1, granted QoS 2, disconnect with will message
 		return true
 	}
-	return false
+
+	return c.IsValid() && !c.IsValidV3() || c == CodeSuccess
 }
 
 // IsValidForType check either reason code is valid for giver packet type
-- 
2.43.0


From 529ed859497410017cf83c27a2eaf398156856a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 21/25] fix: concurrent additions do not lower the recorded
 maximum

Between the load and the store of the maximum another addition could store
a higher one, which was then overwritten.
---
 vlmonitoring/vlmetrics.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index bab4ec5..6336210 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -151,8 +151,11 @@ func LoadStore(src *uint64, dst *uint64) uint64 {
 
 func (c *Max) AddU64(n uint64) {
 	val := atomic.AddUint64(&c.base.uint64, n)
-	if atomic.LoadUint64(&c.Max) < val {
-		atomic.StoreUint64(&c.Max, val)
+	for {
+		max := atomic.LoadUint64(&c.Max)
+		if max >= val || atomic.CompareAndSwapUint64(&c.Max, max, val) {
+			return
+		}
 	}
 }
 
-- 
2.43.0


From a89425621cbca60419269e6ddb594b2fd604b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 22/25] fix: Get of a counter is an atomic load

---
 vlmonitoring/vlmetrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index 6336210..082ada2 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -125,7 +125,7 @@ func (c *base) Load() uint64 {
 }
 
 func (c *base) Get() uint64 {
-	return c.uint64
+	return atomic.LoadUint64(&c.uint64)
 }
 
 func (c *Max) Load() Max {
-- 
2.43.0


From 6e37d7d882a6da12a2ca9070f1ecf1c39792bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 23/25] fix: remaining time of a message that expires in over
 136 years

It was cut to 32 bits, so such a message could even be reported expired.
---
 mqttp/publish.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index 45062b1..04db728 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -15,6 +15,7 @@
 package mqttp
 
 import (
+	"math"
 	"time"
 )
 
@@ -56,7 +57,12 @@ func (msg *Publish) Expired() (time.Time, uint32, bool) {
 		now := time.Now()
 
 		if msg.expireAt.After(now) {
-			if df = uint32(msg.expireAt.Sub(now) / time.Second); df > 0 {
+			left := msg.expireAt.Sub(now) / time.Second
+			if left > math.MaxUint32 {
+				left = math.MaxUint32
+			}
+
+			if df = uint32(left); df > 0 {
 				expired = false
 			}
 		}
-- 
2.43.0


From 4c7b828ae689bec1827483e942e840fcafa04d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 24/25] fix: UNSUBACK decode consumes the reason codes

The count returned by the decoder left out the codes, so that every 5.0
UNSUBACK with a reason code was refused as malformed.
---
 mqttp/unsuback.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 22301c5..cd3473e 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -90,6 +90,7 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 			}
 			msg.returnCodes = append(msg.returnCodes, ReasonCode(c))
 		}
+		offset += len(msg.returnCodes)
 	}
 
 	return offset, nil
-- 
2.43.0


From 17eafe9266d1b48550b9a145a24d710f48ef697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:37 +0000
Subject: [PATCH 25/25] fix: every error has a text of its own

---
 mqttp/errors.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mqttp/errors.go b/mqttp/errors.go
index 5f58331..3507caa 100644
--- a/mqttp/errors.go
+++ b/mqttp/errors.go
@@ -101,7 +101,17 @@ func (e Error) Error() string {
 	case ErrInvalidUtf8:
 		return "String is not UTF8"
 	case ErrInvalidProtocolVersion:
+		return "Invalid protocol version"
+	case ErrProtocolInvalidName:
 		return "Invalid protocol name"
+	case ErrInvalid:
+		return "Invalid value"
+	case ErrNotSet:
+		return "Value is not set"
+	case ErrPanicDetected:
+		return "Panic detected"
+	case ErrNotSupported:
+		return "Not supported"
 	}
 
 	return "Unknown error"
-- 
2.43.0

