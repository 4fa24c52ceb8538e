"""Planted bugs: edits of the original code, with a demonstration each (see seed.py)."""
ALL = []
IMP = "package %s_test\n\nimport (\n%s)\n"

def bug(id, prop, edits, demo, needs, breaks, pkg="mqttp", imports=(), race=False):
    ims = sorted({"testing"} | set(imports)) 
    s = "package zz_test\n\n".replace("zz", pkg) + "import (\n" + "".join('\t"%s"\n' % i for i in ims) + '\n\t"github.com/VolantMQ/vlapi/%s"\n)\n\n' % pkg + demo.strip("\n") + "\n"
    ALL.append(dict(id=id, prop=prop, edits=edits, demo=s, needs=needs, breaks=breaks, pkg=pkg, race=race))

M = "mqttp/"

bug("discard-keeps-length", "C07", [(M + "header.go", "func (h *header) PropertiesDiscard() {\n\th.properties.reset()\n", "func (h *header) PropertiesDiscard() {\n\tfor id := range h.properties.properties {\n\t\tdelete(h.properties.properties, id)\n\t}\n")],
'''
func TestDemo(t *testing.T) {
	p := mqttp.NewConnAck(mqttp.ProtocolV50)
	_ = p.PropertySet(mqttp.PropertyReasonString, "because")
	p.PropertiesDiscard()
	_ = p.PropertySet(mqttp.PropertyMaximumQoS, byte(1))
	buf, err := mqttp.Encode(p)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err = mqttp.Decode(mqttp.ProtocolV50, buf); err != nil {
		t.Fatalf("%x: %v", buf, err)
	}
}
''', "properties set, discarded and set again before encoding", "the property length still counts the discarded properties, so the encoded packet is too long and malformed")

bug("clone-shares-map", "C15", [(M + "publish.go", "\tif msg.version == ProtocolV50 && v == ProtocolV50 {\n\t\t// [MQTT-3.3.2-4] forward Payload Format\n", '''	// everything is forwarded when nothing is hop by hop
	hop := false
	for id := range msg.properties.properties {
		switch id {
		case PropertyPayloadFormat, PropertyResponseTopic, PropertyCorrelationData, PropertyUserProperty, PropertyContentType:
		default:
			hop = true
		}
	}

	if v != ProtocolV50 || msg.version != ProtocolV50 {
		return pkt, nil
	}

	if !hop {
		pkt.properties = msg.properties
	} else {
		// [MQTT-3.3.2-4] forward Payload Format
''')], '''
func TestDemo(t *testing.T) {
	p := mqttp.NewPublish(mqttp.ProtocolV50)
	_ = p.Set("a", []byte("x"), mqttp.QoS0, false, false)
	_ = p.PropertySet(mqttp.PropertyContentType, "text")
	c, err := p.Clone(mqttp.ProtocolV50)
	if err != nil {
		t.Fatal(err)
	}
	_ = c.PropertySet(mqttp.PropertyTopicAlias, uint16(3))
	if p.PropertyGet(mqttp.PropertyTopicAlias) != nil {
		t.Fatal("the original got the topic alias of its clone")
	}
}
''', "an original with only forwardable properties, and a property set on the clone (or the original) afterwards", "clone and original share one property map: setting a topic alias on the clone of one subscriber changes the original")

bug("binary-property-aliases", "C21", [(M + "property.go", "\ttmp := make([]byte, len(b))\n\n\tcopy(tmp, b)\n\n\tp.properties[id] = tmp\n", "\t// short values are copied, long ones are not worth it\n\tif len(b) <= 64 {\n\t\tb = append([]byte{}, b...)\n\t}\n\n\tp.properties[id] = b\n")],
'''
func TestDemo(t *testing.T) {
	p := mqttp.NewPublish(mqttp.ProtocolV50)
	_ = p.Set("a", []byte("x"), mqttp.QoS0, false, false)
	want := bytes.Repeat([]byte("k"), 90)
	_ = p.PropertySet(mqttp.PropertyCorrelationData, want)
	buf, err := mqttp.Encode(p)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := mqttp.Decode(mqttp.ProtocolV50, buf)
	if err != nil {
		t.Fatal(err)
	}
	for i := range buf {
		buf[i] = 0
	}
	got, _ := m.PropertyGet(mqttp.PropertyCorrelationData).AsBinary()
	if !bytes.Equal(got, want) {
		t.Fatalf("%q", got)
	}
}
''', "correlation or authentication data longer than 64 bytes, and the receive buffer reused after decoding", "the stored value is a window into the receive buffer and changes with it", imports=["bytes"])

bug("payload-aliases", "C21", [(M + "publish.go", "\tif pLen > 0 {\n\t\tmsg.payload = make([]byte, pLen)\n\t\tcopy(msg.payload, from[offset:offset+pLen])\n", "\tif pLen > 0 {\n\t\tif msg.Retain() || msg.QoS() != QoS0 {\n\t\t\tmsg.payload = make([]byte, pLen)\n\t\t\tcopy(msg.payload, from[offset:offset+pLen])\n\t\t} else {\n\t\t\t// is not stored anywhere\n\t\t\tmsg.payload = from[offset : offset+pLen]\n\t\t}\n")],
'''
func TestDemo(t *testing.T) {
	buf := []byte{0x30, 6, 0, 1, 'a', 'x', 'y', 'z'}
	m, _, err := mqttp.Decode(mqttp.ProtocolV311, buf)
	if err != nil {
		t.Fatal(err)
	}
	buf[6] = 'Q'
	if got := string(m.(*mqttp.Publish).Payload()); got != "xyz" {
		t.Fatal(got)
	}
}
''', "a QoS 0 message that is not retained, and its receive buffer overwritten while the message is queued", "the payload is a window into the receive buffer")

bug("expiry-truncated-now", "C16", [(M + "publish.go", "\t\tnow := time.Now()\n", "\t\tnow := time.Now().Truncate(time.Second)\n")],
'''
func TestDemo(t *testing.T) {
	for i := 0; i < 8; i++ {
		p := mqttp.NewPublish(mqttp.ProtocolV50)
		now := time.Now()
		p.SetExpireAt(now.Add(900 * time.Millisecond))
		if now.Nanosecond() > 200e6 && now.Nanosecond() < 900e6 {
			if _, left, expired := p.Expired(); !expired {
				t.Fatal("not expired, seconds left:", left)
			}
			return
		}
		time.Sleep(150 * time.Millisecond)
	}
}
''', "asking in the later part of a wall clock second", "a message is kept up to one second longer and reports a remaining time one too high", imports=["time"])

bug("expiry-before-epoch", "C16", [(M + "publish.go", "\tif !msg.expireAt.IsZero() {\n", "\tif msg.expireAt.Unix() > 0 {\n")],
'''
func TestDemo(t *testing.T) {
	p := mqttp.NewPublish(mqttp.ProtocolV50)
	p.SetExpireAt(time.Unix(0, 0))
	if _, _, expired := p.Expired(); !expired {
		t.Fatal("expiry time of 1970 is ignored")
	}
}
''', "an expiry time at or before the Unix epoch (a stored timestamp of zero)", "the message never expires", imports=["time"])

bug("sub-not-atomic", "C18", [("vlmonitoring/vlmetrics.go", "\tatomic.AddUint64(&c.base.uint64, ^(n - 1))\n", "\tfor {\n\t\tval := atomic.LoadUint64(&c.base.uint64)\n\t\tif val < n {\n\t\t\tn = val\n\t\t}\n\t\tif val == atomic.LoadUint64(&c.base.uint64) {\n\t\t\tatomic.StoreUint64(&c.base.uint64, val-n)\n\t\t\treturn\n\t\t}\n\t}\n")],
'''
func TestDemo(t *testing.T) {
	old := runtime.GOMAXPROCS(8)
	defer runtime.GOMAXPROCS(old)
	for r := 0; r < 60; r++ {
		var m vlmonitoring.Max
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 20000; i++ {
					m.AddU64(1)
					m.SubU64(1)
				}
			}()
		}
		wg.Wait()
		if m.Get() != 0 {
			t.Fatal(m.Get())
		}
	}
}
''', "an addition or another subtraction between the check and the store of a subtraction", "concurrent updates are lost, the number of connected clients drifts", pkg="vlmonitoring", imports=["runtime", "sync"])

bug("diff-reload", "C17", [("vlmonitoring/vlmetrics.go", "\t\t*dst = val\n", "\t\t*dst = atomic.LoadUint64(src)\n")],
'''
func TestDemo(t *testing.T) {
	old := runtime.GOMAXPROCS(8)
	defer runtime.GOMAXPROCS(old)
	for r := 0; r < 40; r++ {
		var c, prev vlmonitoring.Counter
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 30000; i++ {
					c.AddU64(1)
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		var sum uint64
		for run := true; run; {
			select {
			case <-done:
				run = false
			default:
			}
			d := c.Diff(&prev)
			sum += d.Get()
		}
		d := c.Diff(&prev)
		if sum += d.Get(); sum != 120000 {
			t.Fatal(sum)
		}
	}
}
''', "an addition between the two loads of a difference snapshot", "what was added in between is in no difference", pkg="vlmonitoring", imports=["runtime", "sync"])

bug("diff-signed", "C17", [("vlmonitoring/vlmetrics.go", "\tif diff != 0 {\n", "\tif int64(diff) > 0 {\n")],
'''
func TestDemo(t *testing.T) {
	var c, prev vlmonitoring.Counter
	c.AddU64(1<<63 + 5)
	d1 := c.Diff(&prev)
	d2 := c.Diff(&prev)
	if d1.Get()+d2.Get() != 1<<63+5 {
		t.Fatal(d1.Get(), d2.Get())
	}
}
''', "more than 2^63 counted between two snapshots", "the amount is reported again by the next difference", pkg="vlmonitoring")

bug("trailing-data-count", "C02", [(M + "header.go", "\t\treturn offset + int(h.remLen), CodeProtocolError\n", "\t\treturn len(from), CodeProtocolError\n")],
'''
func TestDemo(t *testing.T) {
	_, n, err := mqttp.Decode(mqttp.ProtocolV311, []byte{0xC0, 0, 0xC0, 0, 0xC0, 0})
	if err == nil || n != 2 {
		t.Fatal(n, err)
	}
}
''', "a buffer holding more than one packet", "the reader is told that all of the buffer is one packet and loses the packets behind the first")

bug("full-len-128", "C24", [(M + "property.go", "func (p *property) FullLen() int {\n\treturn p.len + uvarintCalc(uint32(p.len))\n", "func (p *property) FullLen() int {\n\tif p.len > 128 {\n\t\treturn p.len + uvarintCalc(uint32(p.len))\n\t}\n\treturn p.len + 1\n")],
'''
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	p := mqttp.NewConnAck(mqttp.ProtocolV50)
	_ = p.PropertySet(mqttp.PropertyReasonString, strings.Repeat("r", 125))
	buf, err := mqttp.Encode(p)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err = mqttp.Decode(mqttp.ProtocolV50, buf); err != nil {
		t.Fatal(err)
	}
}
''', "properties of exactly 128 bytes", "the reported size is one byte short and the packet is cut", imports=["strings"])

bug("write-lp-one-short", "C26", [(M + "routines.go", "\tif len(buf) < 2+n {\n", "\tif len(buf) <= n {\n")],
'''
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	buf := make([]byte, 6)
	if n, err := mqttp.WriteLPBytes(buf, []byte("hello")); err != mqttp.ErrInsufficientBufferSize || n != 7 {
		t.Fatal(n, err)
	}
}
''', "a buffer one byte shorter than the field", "the content is cut while success and the full length are reported")

bug("disconnect-codes", "C10", [(M + "reasonCodes.go", '\t\tCodeMaximumConnectTime:                {iss: CodeIssuerServer, desc: "The maximum connection time authorized for this connection has been exceeded"},\n', "")],
'''
func TestDemo(t *testing.T) {
	if _, _, err := mqttp.Decode(mqttp.ProtocolV50, []byte{0xE0, 2, 0xA0, 0}); err != nil {
		t.Fatal(err)
	}
}
''', "the maximum connect time code", "a DISCONNECT a server may send is refused")

bug("pubrel-code", "C10", [(M + "reasonCodes.go", '\tPUBREL: {\n\t\tCodeSuccess:          {iss: CodeIssuerBoth, desc: "Message released. Publication of QoS 2 message is complete"},\n\t\tCodePacketIDNotFound: {iss', '\tPUBREL: {\n\t\tCodeSuccess:          {iss: CodeIssuerBoth, desc: "Message released. Publication of QoS 2 message is complete"},\n\t\tCodePacketIDInUse: {iss: CodeIssuerBoth, desc: "The IDType is already in use"},\n\t\tCodePacketIDNotFound:  {iss')],
'''
func TestDemo(t *testing.T) {
	if _, _, err := mqttp.Decode(mqttp.ProtocolV50, []byte{0x62, 3, 0, 1, 0x91}); err == nil {
		t.Fatal("PUBREL with packet identifier in use accepted")
	}
}
''', "a PUBREL with the code for packet identifier in use", "a reason code that PUBREL does not have is accepted")

bug("control-chars", "C11", [(M + "types.go", "u007F-\\u009F]*$", "u007F-\\u0098]*$")],
'''
func TestDemo(t *testing.T) {
	if _, err := mqttp.NewTopic([]byte("a/\u0099")); err == nil {
		t.Fatal("accepted")
	}
}
''', "one of the last C1 control characters in a filter or topic", "text with control characters is accepted")

bug("dollar-level-after", "C11", [(M + "types.go", "\t\tif idx := bytes.Index(topic, topicSep); idx > 0 {\n\t\t\tt.dollarPrefix = topic[:idx]\n", "\t\tif idx := bytes.LastIndex(topic, topicSep); idx > 0 {\n\t\t\tt.dollarPrefix = topic[:idx]\n\t\t\tif bytes.HasPrefix(topic, sharePrefix) {\n\t\t\t\tidx = bytes.Index(topic, topicSep)\n\t\t\t\tt.dollarPrefix = topic[:idx]\n\t\t\t}\n")],
'''
func TestDemo(t *testing.T) {
	tp, err := mqttp.NewTopic([]byte("$SYS/broker/load"))
	if err != nil || tp.DollarPrefix() != "$SYS" {
		t.Fatal(tp, err)
	}
}
''', "a system topic with more than two levels", "the $ prefix includes further levels")

bug("reset-will-retain", "C12", [(M + "connect.go", "func (msg *Connect) ResetWill() {\n\tmsg.connectFlags &= ^maskConnFlagWill\n\tmsg.connectFlags &= ^maskConnFlagWillQos\n\tmsg.connectFlags &= ^maskConnFlagWillRetain\n", "func (msg *Connect) ResetWill() {\n\tmsg.connectFlags &= ^maskConnFlagWill\n\tmsg.connectFlags &= ^maskConnFlagWillQos\n")],
'''
func TestDemo(t *testing.T) {
	c := mqttp.NewConnect(mqttp.ProtocolV311)
	c.SetClean(true)
	w := mqttp.NewPublish(mqttp.ProtocolV311)
	_ = w.Set("w", []byte("gone"), mqttp.QoS1, true, false)
	if err := c.SetWill(w); err != nil {
		t.Fatal(err)
	}
	c.ResetWill()
	buf, err := mqttp.Encode(c)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err = mqttp.Decode(mqttp.ProtocolV311, buf); err != nil {
		t.Fatal(err)
	}
}
''', "a retained will set and reset again (or replaced by one that is not retained)", "the CONNECT keeps the will retain flag without a will and is refused")

bug("qos0-with-id", "C13", [(M + "publish.go", "\t// [MQTT-3.3.2.2]\n\tif msg.QoS() != QoS0 {\n\t\toffset += msg.encodePacketID(to[offset:])\n", "\t// [MQTT-3.3.2.2]\n\tif len(msg.packetID) != 0 {\n\t\toffset += msg.encodePacketID(to[offset:])\n"),
 (M + "publish.go", "\tif msg.QoS() != 0 {\n\t\t// QoS1/2 packets must include packet id\n\t\ttotal += 2\n", "\tif len(msg.packetID) != 0 {\n\t\t// QoS1/2 packets must include packet id\n\t\ttotal += 2\n")],
'''
func TestDemo(t *testing.T) {
	p := mqttp.NewPublish(mqttp.ProtocolV311)
	_ = p.Set("a", []byte("x"), mqttp.QoS1, false, false)
	p.SetPacketID(0x4142)
	_ = p.SetQoS(mqttp.QoS0)
	buf, err := mqttp.Encode(p)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := mqttp.Decode(mqttp.ProtocolV311, buf)
	if err != nil {
		t.Fatal(err)
	}
	if got := string(m.(*mqttp.Publish).Payload()); got != "x" {
		t.Fatal(got)
	}
}
''', "a message with a packet identifier that is downgraded to QoS 0", "the identifier goes on the wire and becomes the start of the payload")

bug("set-changes-topic-on-refusal", "C14", [(M + "publish.go", "\tif !q.IsValid() {\n\t\treturn ErrInvalidQoS\n\t}\n\n\tmsg.mFlags &= ^maskPublishFlagQoS\n\tmsg.mFlags |= byte(q) << 1\n\tmsg.topic = t\n", "\tmsg.topic = t\n\n\tif !q.IsValid() {\n\t\treturn ErrInvalidQoS\n\t}\n\n\tmsg.mFlags &= ^maskPublishFlagQoS\n\tmsg.mFlags |= byte(q) << 1\n")],
'''
func TestDemo(t *testing.T) {
	p := mqttp.NewPublish(mqttp.ProtocolV311)
	_ = p.SetTopic("a")
	if err := p.Set("b", nil, mqttp.QosType(3), false, false); err == nil {
		t.Fatal("accepted")
	}
	if p.Topic() != "a" {
		t.Fatal(p.Topic())
	}
}
''', "Set refused because of its QoS on a message that has a topic already", "the refused call has replaced the topic")

bug("disconnect-version-downgrade", "C09", [(M + "disconnect.go", '''	var err error
	if msg.version == ProtocolV50 {
		pLen := msg.properties.FullLen()
		// The Reason''', '''	var err error
	if msg.properties.properties != nil {
		pLen := msg.properties.FullLen()
		// The Reason'''), (M + "disconnect.go", "	total := 0\n\n	if msg.version == ProtocolV50 {\n", "	total := 0\n\n	if msg.properties.properties != nil {\n")],
'''
func TestDemo(t *testing.T) {
	p := mqttp.NewDisconnect(mqttp.ProtocolV50)
	p.SetReasonCode(mqttp.CodeServerBusy)
	p.SetVersion(mqttp.ProtocolV311)
	buf, err := mqttp.Encode(p)
	if err != nil || len(buf) != 2 {
		t.Fatalf("%x %v", buf, err)
	}
}
''', "a message made for 5.0 and then switched to a 3.x version", "a 3.1.1 DISCONNECT carries a reason code and a property length")

bug("suback-drops-repeats", "C23", [(M + "suback.go", "\t\tmsg.returnCodes = append(msg.returnCodes, c)\n", "\t\tif n := len(msg.returnCodes); n == 0 || c < CodeUnspecifiedError || msg.returnCodes[n-1] != c {\n\t\t\tmsg.returnCodes = append(msg.returnCodes, c)\n\t\t}\n")],
'''
func TestDemo(t *testing.T) {
	p := mqttp.NewSubAck(mqttp.ProtocolV50)
	_ = p.AddReturnCodes([]mqttp.ReasonCode{0, mqttp.CodeNotAuthorized})
	_ = p.AddReturnCodes([]mqttp.ReasonCode{mqttp.CodeNotAuthorized, 1})
	if got := p.ReturnCodes(); len(got) != 4 {
		t.Fatal(got)
	}
}
''', "the same failure code for two topics in a row", "one of the codes is missing, those behind it belong to the wrong topic")

bug("will-topic-alias", "C08", [(M + "connect.go", "\t\t\tif _, ok := msg.will.properties.properties[PropertyTopicAlias]; ok {\n", "\t\t\tif p := msg.will.PropertyGet(PropertyTopicAlias); p != nil && p.Type() != PropertyTypeShort {\n")],
'''
func TestDemo(t *testing.T) {
	buf := []byte{0x10, 0, 0, 4, 'M', 'Q', 'T', 'T', 5, 6, 0, 0, 0, 0, 0, 3, 0x23, 0, 1, 0, 1, 'w', 0, 1, 'x'}
	buf[1] = byte(len(buf) - 2)
	if _, _, err := mqttp.Decode(mqttp.ProtocolV50, buf); err == nil {
		t.Fatal("topic alias accepted in a will")
	}
}
''', "a 5.0 CONNECT whose will has a topic alias", "a property that wills do not have is accepted")

bug("ack-empty-properties", "C03", [(M + "puback.go", "\t\tif len(from[offset:]) > 0 {\n", "\t\tif len(from[offset:]) > 1 {\n")],
'''
func TestDemo(t *testing.T) {
	if _, _, err := mqttp.Decode(mqttp.ProtocolV50, []byte{0x40, 4, 0, 1, 0x10, 0}); err != nil {
		t.Fatal(err)
	}
}
''', "an acknowledgement whose sender writes the empty property block out", "a well-formed acknowledgement is refused")

bug("subscribe-reserved-bit", "C04", [(M + "header.go", "maskSubscriptionReservedV5     byte = 0xC0", "maskSubscriptionReservedV5     byte = 0x80")],
'''
func TestDemo(t *testing.T) {
	if _, _, err := mqttp.Decode(mqttp.ProtocolV50, []byte{0x82, 7, 0, 1, 0, 0, 1, 'a', 0x41}); err == nil {
		t.Fatal("reserved bit accepted")
	}
}
''', "subscription options with the lower of the two reserved bits set", "a malformed SUBSCRIBE is accepted")

bug("connack-dirty-buffer", "C06", [(M + "connack.go", "\tif msg.sessionPresent {\n\t\tto[offset] = 1\n\t} else {\n\t\tto[offset] = 0\n\t}\n", "\tif msg.sessionPresent {\n\t\tto[offset] = 1\n\t}\n")],
'''
func TestDemo(t *testing.T) {
	p := mqttp.NewConnAck(mqttp.ProtocolV311)
	buf := []byte{9, 9, 9, 9}
	if _, err := p.Encode(buf); err != nil || buf[2] != 0 {
		t.Fatal(buf, err)
	}
}
''', "a reused buffer", "the session present byte is whatever the buffer held before")

bug("ack-loses-code", "C05", [(M + "puback.go", "\t\tpLen := msg.properties.FullLen()\n\t\tif pLen > 1 || msg.reasonCode != CodeSuccess {\n\t\t\tto[offset]", "\t\tpLen := msg.properties.FullLen()\n\t\tif pLen > 1 || msg.reasonCode >= CodeUnspecifiedError {\n\t\t\tto[offset]"),
 (M + "puback.go", "\t\tif pLen > 1 || msg.reasonCode != CodeSuccess {\n\t\t\ttotal++", "\t\tif pLen > 1 || msg.reasonCode >= CodeUnspecifiedError {\n\t\t\ttotal++")],
'''
func TestDemo(t *testing.T) {
	p := mqttp.NewPubAck(mqttp.ProtocolV50)
	p.SetPacketID(1)
	p.SetReason(mqttp.CodeNoMatchingSubscribers)
	buf, err := mqttp.Encode(p)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := mqttp.Decode(mqttp.ProtocolV50, buf)
	if err != nil || m.(*mqttp.Ack).Reason() != mqttp.CodeNoMatchingSubscribers {
		t.Fatal(err)
	}
}
''', "the only acknowledgement code between success and the errors, without properties", "the peer is told success although there was no matching subscriber")

bug("clone-v3-expiry", "C15", [(M + "publish.go", "\tpkt.expireAt = msg.expireAt\n", "\tif v == msg.version {\n\t\tpkt.expireAt = msg.expireAt\n\t}\n")],
'''
func TestDemo(t *testing.T) {
	p := mqttp.NewPublish(mqttp.ProtocolV50)
	_ = p.Set("a", nil, mqttp.QoS0, false, false)
	p.SetExpireAt(time.Now().Add(-time.Hour))
	c, err := p.Clone(mqttp.ProtocolV311)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, expired := c.Expired(); !expired {
		t.Fatal("the clone does not expire")
	}
}
''', "a message of one version cloned for a session of the other", "the clone for the 3.1.1 session never expires", imports=["time"])

bug("clone-touches-dup", "C22", [(M + "publish.go", "\tif err := pkt.Set(msg.topic, msg.Payload(), msg.QoS(), msg.Retain(), false); err != nil {\n\t\treturn nil, err\n\t}\n", "\tdup := msg.Dup()\n\tmsg.SetDup(false)\n\tpkt.mFlags = msg.mFlags\n\tmsg.SetDup(dup)\n\n\tif !ValidTopic([]byte(msg.topic)) {\n\t\treturn nil, ErrInvalidTopic\n\t}\n\n\tpkt.topic = msg.topic\n\tpkt.payload = msg.payload\n")],
'''
func TestDemo(t *testing.T) {
	p := mqttp.NewPublish(mqttp.ProtocolV50)
	_ = p.Set("a", nil, mqttp.QoS1, false, true)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				if _, err := p.Clone(mqttp.ProtocolV311); err != nil {
					t.Error(err)
				}
				if !p.Dup() {
					t.Error("dup flag lost")
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', "two sessions that clone the same message at once", "the flags of the shared original are written while others read them", imports=["sync"])

bug("topic-memo-race", "C22", [(M + "packet.go", "func ValidTopic(topic []byte) bool {\n\treturn IsValidUTF(topic) && TopicPublishRegexp.Match(topic)\n", "func ValidTopic(topic []byte) bool {\n\t// publishers tend to repeat their topic\n\tif lastTopicOk && string(topic) == lastTopic {\n\t\treturn true\n\t}\n\n\tlastTopic = string(topic)\n\tlastTopicOk = IsValidUTF(topic) && TopicPublishRegexp.Match(topic)\n\n\treturn lastTopicOk\n"),
  (M + "packet.go", "// ValidTopic checks the topic,", "var lastTopic string\nvar lastTopicOk bool\n\n// ValidTopic checks the topic,")],
'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				p := mqttp.NewPublish(mqttp.ProtocolV311)
				tp := string(rune('a'+g)) + "/x"
				if g%2 == 0 {
					tp = string(rune('a'+g)) + "/#"
				}
				if err := p.SetTopic(tp); (err == nil) != (g%2 == 1) {
					t.Error(tp, err)
				}
			}
		}(g)
	}
	wg.Wait()
}
''', "topics validated in two goroutines at once", "a data race: one message's validation answers for another's topic", imports=["sync"], race=True)

bug("auth-under-unknown", "C25", [(M + "packet.go", "\t\tif v < ProtocolV50 {\n\t\t\treturn nil, ErrInvalidMessageType\n", "\t\tif v == ProtocolV311 {\n\t\t\treturn nil, ErrInvalidMessageType\n")],
'''
func TestDemo(t *testing.T) {
	if _, err := mqttp.New(mqttp.ProtocolV31, mqttp.AUTH); err == nil {
		t.Fatal("AUTH under 3.1")
	}
}
''', "AUTH asked for under 3.1 (not 3.1.1)", "a 5.0-only packet is created for 3.1")

bug("status-desc", "C20", [("vlauth/auth.go", "\tif e == StatusAllow {\n", "\tif e <= StatusAllow {\n")],
'''
func TestDemo(t *testing.T) {
	if s := vlauth.Status(-1).Desc(); s == vlauth.StatusAllow.Desc() {
		t.Fatal(s)
	}
}
''', "a negative, undefined status", "an undefined status reads as allowed", pkg="vlauth")

bug("config-partial", "C19", [("vltypes/config.go", "\t\t\tif !ok {\n\t\t\t\treturn nil, ErrInvalidConfigType\n", "\t\t\tif !ok {\n\t\t\t\treturn res, ErrInvalidConfigType\n")],
'''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		r, err := vltypes.NormalizeConfig(map[interface{}]interface{}{"a": 1, "b": 2, 3: 4})
		if err == nil || r != nil {
			t.Fatal(r, err)
		}
	}
}
''', "a map with a key that is no string", "a refused configuration is handed out in part", pkg="vltypes")

bug("config-nil-values", "C19", [("vltypes/config.go", "\t\t\tres[key] = v\n", "\t\t\tif v != nil {\n\t\t\t\tres[key] = v\n\t\t\t}\n")],
'''
func TestDemo(t *testing.T) {
	r, err := vltypes.NormalizeConfig(map[interface{}]interface{}{"a": nil})
	if _, ok := r["a"]; err != nil || !ok {
		t.Fatal(r, err)
	}
}
''', "a key without value, as in 'tls:' of a YAML file", "the entry is dropped", pkg="vltypes")

bug("id-aliases-input", "C21", [(M + "header.go", "\tif len(h.packetID) == 0 {\n\t\th.packetID = make([]byte, 2)\n\t}\n\n\treturn copy(h.packetID, src), nil\n", "\th.packetID = src[:2:2]\n\n\treturn len(h.packetID), nil\n")],
'''
func TestDemo(t *testing.T) {
	buf := []byte{0x40, 2, 0, 7}
	m, _, err := mqttp.Decode(mqttp.ProtocolV311, buf)
	if err != nil {
		t.Fatal(err)
	}
	copy(buf, []byte{0x40, 2, 0, 9})
	if id, _ := m.ID(); id != 7 {
		t.Fatal(id)
	}
}
''', "the receive buffer reused while the acknowledgement is handled", "the packet identifier changes with the buffer")

bug("decode-writes-input", "C01", [(M + "publish.go", "\tmsg.topic = string(buf)\n", "\t// one leading slash is as good as several\n\tfor len(buf) > 1 && buf[0] == '/' && buf[1] == '/' {\n\t\tcopy(buf, buf[1:])\n\t\tbuf = buf[:len(buf)-1]\n\t}\n\n\tmsg.topic = string(buf)\n")],
'''
func TestDemo(t *testing.T) {
	buf := []byte{0x30, 6, 0, 3, '/', '/', 'a', 'x'}
	_, _, _ = mqttp.Decode(mqttp.ProtocolV311, buf)
	if string(buf[4:7]) != "//a" {
		t.Fatalf("%q", buf)
	}
}
''', "a topic that starts with more than one slash", "decoding changes the input")

bug("property-prealloc", "C01", [(M + "property.go", "\t\tp.properties[id] = []StringPair{}\n", "\t\tp.properties[id] = make([]StringPair, 0, int(binary.BigEndian.Uint16(from))<<8)\n")],
'''
func TestDemo(t *testing.T) {
	props := append([]byte{0x26, 0x10, 0x00}, make([]byte, 0x1000+2)...)
	for i := 3; i < 3+0x1000; i++ {
		props[i] = 'k'
	}
	body := append([]byte{0, 1, 0, byte(len(props)&0x7f) | 0x80, byte(len(props) >> 7)}, props...)
	buf := append([]byte{0x40, byte(len(body)&0x7f) | 0x80, byte(len(body) >> 7)}, body...)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	_, _, err := mqttp.Decode(mqttp.ProtocolV50, buf)
	runtime.ReadMemStats(&b)
	if d := b.TotalAlloc - a.TotalAlloc; err != nil || d > 1<<24 {
		t.Fatal(d, err)
	}
}
''', "a user property with a long name", "a packet of 4 kB makes the decoder allocate hundreds of megabytes", imports=["runtime"])


bug("setwill-same", "C12", [(M + "connect.go", "\t// Reset all will flags\n\tmsg.ResetWill()", "\t// nothing to do if that will is set already\n\tif msg.will == m {\n\t\treturn nil\n\t}\n\n\t// Reset all will flags\n\tmsg.ResetWill()")], '''
func TestDemo(t *testing.T) {
	c := mqttp.NewConnect(mqttp.ProtocolV311)
	_ = c.SetClientID([]byte("c"))
	w := mqttp.NewPublish(mqttp.ProtocolV311)
	_ = w.Set("w", []byte("x"), mqttp.QoS0, false, false)
	if err := c.SetWill(w); err != nil {
		t.Fatal(err)
	}
	_ = w.SetQoS(mqttp.QoS2)
	w.SetRetain(true)
	if err := c.SetWill(w); err != nil {
		t.Fatal(err)
	}
	buf, err := mqttp.Encode(c)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := mqttp.Decode(mqttp.ProtocolV311, buf)
	if err != nil {
		t.Fatal(err)
	}
	if got := m.(*mqttp.Connect).Will(); got == nil || got.QoS() != mqttp.QoS2 || !got.Retain() {
		t.Fatal("the will is not the one that was set")
	}
}
''', "the same will message set again after it was changed", "connect flags keep the QoS and RETAIN the will had when it was set first")

bug("user-properties-tail", "C05", [(M + "property.go", '''		for _, v := range valueType {
			n, err := encode(v, to[offset:])
			offset += n
			if err != nil {
				return offset, err
			}
		}
	default:
		panic("unexpected property type")
	}

	return offset, nil
}

func encodeBinary''', '''		// the first ones as they are, the others from the end of the list
		for i := range valueType {
			v := valueType[i]
			if i >= 16 {
				v = valueType[len(valueType)-1-(i-16)]
			}
			n, err := encode(v, to[offset:])
			offset += n
			if err != nil {
				return offset, err
			}
		}
	default:
		panic("unexpected property type")
	}

	return offset, nil
}

func encodeBinary''')], '''
func TestDemo(t *testing.T) {
	var ps []mqttp.StringPair
	for i := 0; i < 18; i++ {
		ps = append(ps, mqttp.StringPair{K: fmt.Sprint(i), V: "v"})
	}
	c := mqttp.NewConnAck(mqttp.ProtocolV50)
	if err := c.PropertySet(mqttp.PropertyUserProperty, ps); err != nil {
		t.Fatal(err)
	}
	buf, err := mqttp.Encode(c)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := mqttp.Decode(mqttp.ProtocolV50, buf)
	if err != nil {
		t.Fatal(err)
	}
	got, err := m.PropertyGet(mqttp.PropertyUserProperty).AsStringPairs()
	if err != nil || !reflect.DeepEqual(got, ps) {
		t.Fatalf("%v %v", got, err)
	}
}
''', "more than 17 user properties on one message", "the order of user properties, which has to be kept, is reversed from the seventeenth on", imports=("fmt", "reflect"))

bug("clientid-inplace", "C22", [(M + "connect.go", "\tmsg.clientID = v\n", "\t// reuse the space of the old one\n\tif n := len(v); n != 0 && n <= len(msg.clientID) {\n\t\tmsg.clientID = append(msg.clientID[:0], v...)\n\t\treturn nil\n\t}\n\n\tmsg.clientID = v\n")], '''
func TestDemo(t *testing.T) {
	id := []byte("first")
	a, b := mqttp.NewConnect(mqttp.ProtocolV311), mqttp.NewConnect(mqttp.ProtocolV311)
	_ = a.SetClientID(id)
	_ = b.SetClientID(id)
	if err := b.SetClientID([]byte("other")); err != nil {
		t.Fatal(err)
	}
	if string(a.ClientID()) != "first" {
		t.Fatalf("the other message is now of %s", a.ClientID())
	}
}
''', "two messages made with the same client id, one of which gets another that is not longer", "the new client id is written over memory that the other message (and the caller) still use")

bug("lazy-properties", "C22", [(M + "property.go", "func (p *property) Get(id PropertyID) PropertyToType {\n", "func (p *property) Get(id PropertyID) PropertyToType {\n\t// allocated on first use\n\tif p.properties == nil {\n\t\tp.reset()\n\t}\n\n")], '''
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		m := mqttp.NewPublish(mqttp.ProtocolV311)
		_ = m.Set("a", []byte("x"), mqttp.QoS0, false, false)
		m.SetVersion(mqttp.ProtocolV50)
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if m.PropertyGet(mqttp.PropertyTopicAlias) != nil {
					t.Error("no alias was set")
				}
			}()
		}
		wg.Wait()
	}
}
''', "one message that was made for 3.1.1 and switched to 5.0, read in several goroutines", "reading a property writes to the message: a data race between readers", imports=("sync",), race=True)

bug("repeat-apart", "C08", [(M + "property.go", "\tvar err error\n\n\tfor pLen != 0 {", "\tvar err error\n\tlast := PropertyID(0)\n\n\tfor pLen != 0 {"), (M + "property.go", "\t\tif _, ok := p.properties[id]; ok && !id.DupAllowed(t) {\n\t\t\treturn offset, CodeProtocolError\n\t\t}\n", "\t\tif _, ok := p.properties[id]; ok && (id == last || len(p.properties) < 4) && !id.DupAllowed(t) {\n\t\t\treturn offset, CodeProtocolError\n\t\t}\n\t\tlast = id\n")], '''
func TestDemo(t *testing.T) {
	body := []byte{0, 0, 12, 36, 1, 37, 1, 40, 1, 41, 1, 42, 1, 36, 0}
	if _, _, err := mqttp.Decode(mqttp.ProtocolV50, append([]byte{0x20, byte(len(body))}, body...)); err == nil {
		t.Fatal("a repeated Maximum QoS is accepted")
	}
}
''', "a property repeated with others in between, in a block of four or more", "a property that may appear only once is accepted twice")

bug("subscription-limit", "C23", [(M + "subscribe.go", "\t\tmsg.topics = append(msg.topics, topic)\n\n\t\tremLen", "\t\t// keep the memory of one packet bounded\n\t\tif len(msg.topics) < 1024 {\n\t\t\tmsg.topics = append(msg.topics, topic)\n\t\t}\n\n\t\tremLen")], '''
func TestDemo(t *testing.T) {
	s := mqttp.NewSubscribe(mqttp.ProtocolV311)
	s.SetPacketID(1)
	for i := 0; i < 1100; i++ {
		p, err := mqttp.NewSubscribeTopic([]byte(fmt.Sprint("t/", i)), 1)
		if err != nil {
			t.Fatal(err)
		}
		_ = s.AddTopic(p)
	}
	buf, err := mqttp.Encode(s)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := mqttp.Decode(mqttp.ProtocolV311, buf)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	_ = m.(*mqttp.Subscribe).ForEachTopic(func(*mqttp.Topic) error { n++; return nil })
	if n != 1100 {
		t.Fatal(n)
	}
}
''', "a SUBSCRIBE of more than 1024 topics", "the topics beyond the limit are dropped silently, so the SUBACK has too few codes", imports=("fmt",))

bug("long-client-id", "C03", [(M + "connect.go", "\treturn IsValidUTF(cid) && clientIDRegexp.Match(cid)", "\t// nobody needs longer ones\n\treturn len(cid) <= 255 && IsValidUTF(cid) && clientIDRegexp.Match(cid)")], '''
func TestDemo(t *testing.T) {
	id := bytes.Repeat([]byte("a"), 300)
	buf := append([]byte{0x10, 0xb8, 0x02, 0, 4, 'M', 'Q', 'T', 'T', 4, 2, 0, 0, 1, 44}, id...)
	if _, _, err := mqttp.Decode(mqttp.ProtocolV311, buf); err != nil {
		t.Fatal(err)
	}
}
''', "a client identifier of more than 255 characters", "a well formed CONNECT is refused", imports=("bytes",))

bug("block-16384", "C24", [(M + "property.go", "func (p *property) FullLen() int {\n\treturn p.len + uvarintCalc(uint32(p.len))\n}", "func (p *property) FullLen() int {\n\tswitch {\n\tcase p.len < 1<<7:\n\t\treturn p.len + 1\n\tcase p.len <= 1<<14:\n\t\treturn p.len + 2\n\t}\n\n\treturn p.len + uvarintCalc(uint32(p.len))\n}")], '''
func TestDemo(t *testing.T) {
	for _, n := range []int{16383, 16384, 16385} {
		c := mqttp.NewConnAck(mqttp.ProtocolV50)
		if err := c.PropertySet(mqttp.PropertyReasonString, strings.Repeat("r", n-3)); err != nil {
			t.Fatal(err)
		}
		buf, err := mqttp.Encode(c)
		if err != nil {
			t.Fatal(n, err)
		}
		if _, _, err = mqttp.Decode(mqttp.ProtocolV50, buf); err != nil {
			t.Fatal(n, err)
		}
	}
}
''', "properties of exactly 16384 bytes", "the size is one byte short, so the packet cannot be encoded", imports=("strings",))

bug("packet-limit", "C02", [(M + "header.go", "\tif int(h.remLen) > len(from[offset:]) {\n\t\treturn offset + int(h.remLen), ErrInsufficientDataSize\n", "\tif left := int(h.remLen) - len(from[offset:]); left > 0 {\n\t\t// have the caller ask for it in portions\n\t\tif left > 1<<17 {\n\t\t\tleft = 1 << 17\n\t\t}\n\t\treturn len(from) + left, ErrInsufficientDataSize\n")], '''
func TestDemo(t *testing.T) {
	p := mqttp.NewPublish(mqttp.ProtocolV311)
	_ = p.Set("a", make([]byte, 200000), mqttp.QoS0, false, false)
	buf, err := mqttp.Encode(p)
	if err != nil {
		t.Fatal(err)
	}
	for _, k := range []int{10, 100, 1000, len(buf) - 1} {
		if _, n, err := mqttp.Decode(mqttp.ProtocolV311, buf[:k]); err != mqttp.ErrInsufficientDataSize || n != len(buf) {
			t.Fatal(k, n, err)
		}
	}
}
''', "the start of a packet that misses more than 128 KiB", "the length announced for the packet is not its length")

bug("level-limit", "C11", [(M + "types.go", "\tif !TopicFilterRegexp.Match(t.filter) {", "\tif bytes.Count(t.filter, topicSep) > 127 || !TopicFilterRegexp.Match(t.filter) {")], '''
func TestDemo(t *testing.T) {
	if _, err := mqttp.NewTopic([]byte(strings.Repeat("a/", 200) + "#")); err != nil {
		t.Fatal(err)
	}
}
''', "a filter of more than 128 levels", "valid filters are refused", imports=("strings",))

bug("same-filter-replaced", "C23", [(M + "subscribe.go", "\tmsg.topics = append(msg.topics, topic)\n\treturn nil", "\t// a later subscription to the same filter replaces the earlier one\n\tfor i, t := range msg.topics {\n\t\tif t.Filter() == topic.Filter() {\n\t\t\tmsg.topics[i] = topic\n\t\t\treturn nil\n\t\t}\n\t}\n\n\tmsg.topics = append(msg.topics, topic)\n\n\treturn nil")], '''
func TestDemo(t *testing.T) {
	s := mqttp.NewSubscribe(mqttp.ProtocolV50)
	s.SetPacketID(1)
	for _, f := range []string{"a/b", "$share/g/a/b", "c"} {
		p, err := mqttp.NewSubscribeTopic([]byte(f), 1)
		if err != nil {
			t.Fatal(err)
		}
		_ = s.AddTopic(p)
	}
	n := 0
	_ = s.ForEachTopic(func(*mqttp.Topic) error { n++; return nil })
	if n != 3 {
		t.Fatal(n)
	}
}
''', "a shared and an ordinary subscription to the same filter, or one filter twice, in one packet", "a topic is lost, so codes of the SUBACK belong to other topics")

bug("decode-cap", "C21", [(M + "publish.go", "\t\tmsg.payload = make([]byte, pLen)\n\t\tcopy(msg.payload, from[offset:offset+pLen])\n", "\t\tif pLen < 64<<10 {\n\t\t\tmsg.payload = make([]byte, pLen)\n\t\t\tcopy(msg.payload, from[offset:])\n\t\t} else {\n\t\t\t// the buffer of a packet of that size is the packet's own\n\t\t\tmsg.payload = from[offset : offset+pLen : offset+pLen]\n\t\t}\n")], '''
func TestDemo(t *testing.T) {
	p := mqttp.NewPublish(mqttp.ProtocolV50)
	_ = p.Set("a", make([]byte, 70000), mqttp.QoS0, false, false)
	buf, err := mqttp.Encode(p)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := mqttp.Decode(mqttp.ProtocolV50, buf)
	if err != nil {
		t.Fatal(err)
	}
	for i := range buf {
		buf[i] = 0xff
	}
	for _, b := range m.(*mqttp.Publish).Payload() {
		if b != 0 {
			t.Fatal("the payload changed with the buffer")
		}
	}
}
''', "a payload of 64 KiB or more and a receive buffer that is reused", "the payload of the message is overwritten by the next packet")

bug("utf-overlong", "C11", [(M + "types.go", "\treturn utf8.Valid(b) && BasicUTFRegexp.Match(b)", "\tif len(b) > 4096 {\n\t\treturn BasicUTFRegexp.Match(b)\n\t}\n\n\treturn utf8.Valid(b) && BasicUTFRegexp.Match(b)")], '''
func TestDemo(t *testing.T) {
	f := strings.Repeat("a/", 3000) + "\\xed\\xa0\\x80"
	if _, err := mqttp.NewTopic([]byte(f)); err == nil {
		t.Fatal("accepted")
	}
}
''', "text of more than 4096 bytes with an encoded surrogate or another broken sequence", "text that is not valid UTF-8 is accepted as topic filter", imports=("strings",))

bug("topic-eq", "C23", [(M + "subscribe.go", "\tmsg.topics = append(msg.topics, topic)\n\treturn nil", "\tfor i, t := range msg.topics {\n\t\tif t == topic {\n\t\t\tmsg.topics = append(msg.topics[:i], msg.topics[i+1:]...)\n\t\t\tbreak\n\t\t}\n\t}\n\n\tmsg.topics = append(msg.topics, topic)\n\n\treturn nil")], '''
func TestDemo(t *testing.T) {
	s := mqttp.NewSubscribe(mqttp.ProtocolV50)
	a, _ := mqttp.NewSubscribeTopic([]byte("a"), 1)
	b, _ := mqttp.NewSubscribeTopic([]byte("b"), 1)
	for _, p := range []*mqttp.Topic{a, b, a} {
		_ = s.AddTopic(p)
	}
	got := ""
	_ = s.ForEachTopic(func(p *mqttp.Topic) error { got += p.Filter(); return nil })
	if got != "aba" {
		t.Fatal(got)
	}
}
''', "the same Topic object added twice", "the topic moves from its first place to the end, so codes of the SUBACK belong to other topics")

bug("null-will-resets", "C12", [(M + "connect.go", "\tif m == nil || len(m.topic) == 0", "\tif m == nil {\n\t\tmsg.ResetWill()\n\t}\n\n\tif m == nil || len(m.topic) == 0")], '''
func TestDemo(t *testing.T) {
	c := mqttp.NewConnect(mqttp.ProtocolV50)
	w := mqttp.NewPublish(mqttp.ProtocolV50)
	_ = w.Set("a", []byte("x"), mqttp.QoS1, false, false)
	if err := c.SetWill(w); err != nil {
		t.Fatal(err)
	}
	if err := c.SetWill(nil); err == nil {
		t.Fatal("no error")
	}
	buf, err := mqttp.Encode(c)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := mqttp.Decode(mqttp.ProtocolV50, buf)
	if err != nil || m.(*mqttp.Connect).Will() == nil {
		t.Fatal("the will is lost", err)
	}
}
''', "a refused SetWill(nil) after a will has been set", "the will that is set is dropped by a call that reports failure")

bug("sub-quadratic", "C01", [(M + "subscribe.go", "\t\tmsg.topics = append(msg.topics, topic)\n\n\t\tremLen", "\t\tfor _, o := range msg.topics {\n\t\t\tif o == topic {\n\t\t\t\treturn offset, CodeProtocolError\n\t\t\t}\n\t\t}\n\n\t\tmsg.topics = append(msg.topics, topic)\n\n\t\tremLen")], '''
func TestDemo(t *testing.T) {
	took := func(k int) time.Duration {
		n := 2 + 4*k
		b := []byte{0x82}
		for n > 0 {
			c := byte(n & 127)
			if n >>= 7; n > 0 {
				c |= 128
			}
			b = append(b, c)
		}
		b = append(b, 0, 1)
		for i := 0; i < k; i++ {
			b = append(b, 0, 1, 'a', 1)
		}
		t0 := time.Now()
		if _, _, err := mqttp.Decode(mqttp.ProtocolV311, b); err != nil {
			t.Fatal(err)
		}
		return time.Since(t0)
	}
	a, b := took(1<<14), took(1<<18)
	if b > 5*time.Second && b > 80*a {
		t.Fatal(a, b)
	}
}
''', "a SUBSCRIBE packet with hundreds of thousands of topics", "decoding takes time that grows with the square of the packet, one packet stalls a broker for minutes", imports=("time",))

bug("status-16bit", "C20", [("vlauth/auth.go", "\tif e == StatusAllow {", "\tif uint16(e) == uint16(StatusAllow) {")], '''
func TestDemo(t *testing.T) {
	for i := 1; i < 1<<20; i++ {
		if vlauth.Status(i) != vlauth.StatusAllow && vlauth.Status(i).Desc() == "allow" {
			t.Fatal(i)
		}
	}
}
''', "a status value that is 65536 or a multiple above the allow status", "an undefined status reads as allowed", pkg="vlauth")

bug("desc-fallback", "C27", [("vlplugin/plugin.go", "\treturn b.D", "\tif b.D == \"\" {\n\t\treturn b.N\n\t}\n\n\treturn b.D")], '''
func TestDemo(t *testing.T) {
	d := &vlplugin.Descriptor{V: "1.0.0", N: "x", T: "auth"}
	if d.Desc() != "" {
		t.Fatal(d.Desc())
	}
}
''', "a descriptor without description", "the plugin's name is announced as its description", pkg="vlplugin")

bug("cid31", "C04", [(M + "connect.go", "len(msg.clientID) == 0 && msg.version < ProtocolV50 && !msg.IsClean()", "len(msg.clientID) == 0 && msg.version == ProtocolV311 && !msg.IsClean()")], '''
func TestDemo(t *testing.T) {
	b := []byte{0x10, 14, 0, 6, 'M', 'Q', 'I', 's', 'd', 'p', 3, 0, 0, 60, 0, 0}
	if _, _, err := mqttp.Decode(mqttp.ProtocolV31, b); err == nil {
		t.Fatal("accepted")
	}
}
''', "a 3.1 CONNECT without client id and without clean session", "a malformed CONNECT is accepted")

bug("long-codes-unchecked", "C10", [(M + "suback.go", "\tfor _, c := range ret {\n\t\tif msg", "\t// longer lists are a copy of codes which have been added one by one\n\tif len(ret) > 8 {\n\t\tmsg.returnCodes = append(msg.returnCodes, ret...)\n\t\treturn nil\n\t}\n\n\tfor _, c := range ret {\n\t\tif msg")], '''
func TestDemo(t *testing.T) {
	s := mqttp.NewSubAck(mqttp.ProtocolV50)
	if err := s.AddReturnCodes([]mqttp.ReasonCode{0, 1, 2, 0, 1, 2, 0, 1, 0x42}); err == nil {
		t.Fatal("accepted")
	}
}
''', "a list of more than eight codes with an undefined one", "a reason code that MQTT does not define gets into a SUBACK")

bug("id-table", "C22", [(M + "header.go", "\tif len(h.packetID) == 0 {\n\t\th.packetID = make([]byte, 2)\n\t}\n\tbinary.BigEndian.PutUint16(h.packetID, uint16(id))\n}", "\tif id < 64 {\n\t\t// no allocation for the ids most sessions use\n\t\th.packetID = lowIDs[2*int(id) : 2*int(id)+2]\n\t\treturn\n\t}\n\n\tif len(h.packetID) == 0 {\n\t\th.packetID = make([]byte, 2)\n\t}\n\tbinary.BigEndian.PutUint16(h.packetID, uint16(id))\n}\n\nvar lowIDs = func() (t [128]byte) {\n\tfor i := range t {\n\t\tif i%2 == 1 {\n\t\t\tt[i] = byte(i / 2)\n\t\t}\n\t}\n\n\treturn t\n}()")], '''
func TestDemo(t *testing.T) {
	a, b := mqttp.NewPubAck(mqttp.ProtocolV50), mqttp.NewPubAck(mqttp.ProtocolV50)
	a.SetPacketID(7)
	b.SetPacketID(7)
	a.SetPacketID(700)
	if id, _ := b.ID(); id != 7 {
		t.Fatal(id)
	}
}
''', "two messages with the same low identifier, one of which then gets a higher one", "the identifier of the other message changes")

bug("will-dup-retain", "C12", [(M + "connect.go", "\tmsg.connectFlags |= byte(m.QoS()) << offsetConnFlagWillQoS\n", "\tmsg.connectFlags |= (m.mFlags >> offsetPublishFlagQoS) << offsetConnFlagWillQoS\n")], '''
func TestDemo(t *testing.T) {
	c := mqttp.NewConnect(mqttp.ProtocolV311)
	c.SetClean(true)
	w := mqttp.NewPublish(mqttp.ProtocolV311)
	_ = w.Set("a", []byte("x"), mqttp.QoS1, false, true)
	if err := c.SetWill(w); err != nil {
		t.Fatal(err)
	}
	buf, err := mqttp.Encode(c)
	if err != nil {
		t.Fatal(err)
	}
	m, _, err := mqttp.Decode(mqttp.ProtocolV311, buf)
	if err != nil || m.(*mqttp.Connect).Will().Retain() {
		t.Fatal("the will is retained", err)
	}
}
''', "a will made of a PUBLISH with the DUP flag", "the will is retained although that was not asked for")

bug("props-2m", "C24", [(M + "property.go", "func (p *property) FullLen() int {\n\treturn p.len + uvarintCalc(uint32(p.len))\n}", "func (p *property) FullLen() int {\n\tif n := uvarintCalc(uint32(p.len)); n < 3 {\n\t\treturn p.len + n\n\t}\n\n\treturn p.len + 3\n}")], '''
func TestDemo(t *testing.T) {
	p := mqttp.NewPublish(mqttp.ProtocolV50)
	_ = p.Set("a", nil, mqttp.QoS0, false, false)
	kv := mqttp.StringPair{K: "k", V: strings.Repeat("v", 60000)}
	list := make([]mqttp.StringPair, 40)
	for i := range list {
		list[i] = kv
	}
	if err := p.PropertySet(mqttp.PropertyUserProperty, list); err != nil {
		t.Fatal(err)
	}
	if _, err := mqttp.Encode(p); err != nil {
		t.Fatal(err)
	}
}
''', "properties of 2 MiB or more in total", "the size is one byte short and the message cannot be encoded", imports=("strings",))

bug("clone-empty-topic", "C15", [(M + "publish.go", "\tif err := pkt.Set(msg.topic, msg.Payload(), msg.QoS(), msg.Retain(), false); err != nil {", "\ttopic := msg.topic\n\tif len(topic) == 0 {\n\t\t// topic alias is not forwarded, response topic tells where the message belongs\n\t\tif prop, ok := msg.properties.properties[PropertyResponseTopic].(string); ok {\n\t\t\ttopic = prop\n\t\t}\n\t}\n\n\tif err := pkt.Set(topic, msg.Payload(), msg.QoS(), msg.Retain(), false); err != nil {")], '''
func TestDemo(t *testing.T) {
	p := mqttp.NewPublish(mqttp.ProtocolV50)
	_ = p.PropertySet(mqttp.PropertyResponseTopic, "answers")
	c, err := p.Clone(mqttp.ProtocolV50)
	if err != nil || c.Topic() != "" {
		t.Fatal(err, c.Topic())
	}
}
''', "a message without topic that has a response topic", "the clone is published to the response topic")

bug("enc-trailing", "C06", [(M + "publish.go", "\toffset += copy(to[offset:], msg.payload)\n", "\toffset += copy(to[offset:], msg.payload)\n\t// no left-overs of a previous packet behind a long one\n\tif len(msg.payload) > 512 {\n\t\tfor i := range to[offset:] {\n\t\t\tto[offset+i] = 0\n\t\t}\n\t}\n")], '''
func TestDemo(t *testing.T) {
	p := mqttp.NewPublish(mqttp.ProtocolV311)
	_ = p.Set("a", make([]byte, 600), mqttp.QoS0, false, false)
	n, _ := p.Size()
	b := make([]byte, n+4)
	b[n] = 0xe0
	if _, err := p.Encode(b); err != nil || b[n] != 0xe0 {
		t.Fatal(err, b[n])
	}
}
''', "a PUBLISH with more than 512 bytes of payload encoded into a buffer in which another packet follows", "the packet behind is overwritten")

bug("binary-asstring", "C07", [(M + "property.go", "func (t *propertyToType) AsBinary() ([]byte, error) {\n", "func (t *propertyToType) AsBinary() ([]byte, error) {\n\tif v, ok := t.v.(string); ok && t.t == PropertyTypeString {\n\t\treturn []byte(v), nil\n\t}\n\n")], '''
func TestDemo(t *testing.T) {
	p := mqttp.NewConnAck(mqttp.ProtocolV50)
	_ = p.PropertySet(mqttp.PropertyReasonString, "because")
	if _, err := p.PropertyGet(mqttp.PropertyReasonString).AsBinary(); err == nil {
		t.Fatal("a string is read as binary data")
	}
}
''', "a string property asked for as binary data", "the type of a property is no longer checked on reading")

bug("ack-keep-reason", "C09", [(M + "puback.go", "\tif msg.version == ProtocolV50 {\n\t\tpLen := msg.properties.FullLen()\n\t\tif pLen > 1 || msg.reasonCode != CodeSuccess {\n\t\t\tto[offset]", "\tif msg.version == ProtocolV50 || msg.reasonCode >= CodeUnspecifiedError && len(to) > offset {\n\t\tpLen := msg.properties.FullLen()\n\t\tif pLen > 1 || msg.reasonCode != CodeSuccess {\n\t\t\tto[offset]")], '''
func TestDemo(t *testing.T) {
	p := mqttp.NewPubAck(mqttp.ProtocolV50)
	p.SetPacketID(1)
	p.SetReason(mqttp.CodeQuotaExceeded)
	p.SetVersion(mqttp.ProtocolV311)
	b := make([]byte, 16)
	if n, err := p.Encode(b); err != nil || n != 4 {
		t.Fatal(n, err)
	}
}
''', "an acknowledgement with a failure code whose version is set to 3.x, encoded into a buffer longer than it needs", "a 3.1.1 PUBACK carries a reason code behind its end")

bug("id-zero-clears", "C13", [(M + "header.go", "func (h *header) setPacketID(id IDType) {\n", "func (h *header) setPacketID(id IDType) {\n\tif id == 0 {\n\t\th.packetID = h.packetID[:0:0]\n\t\treturn\n\t}\n\n")], '''
func TestDemo(t *testing.T) {
	p := mqttp.NewPubAck(mqttp.ProtocolV311)
	p.SetPacketID(0)
	if id, err := p.ID(); err != nil || id != 0 {
		t.Fatal(id, err)
	}
}
''', "a counter of packet ids that wraps around to 0", "the id that was set is gone, the message says it has none and cannot be encoded")

bug("set-dup-qos0", "C14", [(M + "publish.go", "\tmsg.payload = p\n\tif d {", "\tmsg.payload = p\n\tif d && q != QoS0 {")], '''
func TestDemo(t *testing.T) {
	p := mqttp.NewPublish(mqttp.ProtocolV311)
	_ = p.Set("a", nil, mqttp.QoS0, false, true)
	_ = p.SetQoS(mqttp.QoS1)
	if !p.Dup() {
		t.Fatal("no dup")
	}
}
''', "Set with QoS 0 and DUP, QoS raised later", "the DUP flag that was set is lost")

bug("max-reset-at-zero", "C18", [("vlmonitoring/vlmetrics.go", "\tatomic.AddUint64(&c.base.uint64, ^(n - 1))", "\tif v := atomic.AddUint64(&c.base.uint64, ^(n - 1)); v == 0 {\n\t\tatomic.StoreUint64(&c.Max, 0)\n\t}")], '''
func TestDemo(t *testing.T) {
	var c vlmonitoring.Max
	c.AddU64(5)
	c.SubU64(5)
	if c.Max != 5 {
		t.Fatal(c.Max)
	}
}
''', "everything that was added is subtracted again", "the recorded maximum goes back to zero", pkg="vlmonitoring")

bug("lp-int16", "C26", [(M + "routines.go", "\tn = int(binary.BigEndian.Uint16(buf))", "\tn = int(int16(binary.BigEndian.Uint16(buf))) & MaxLPString &^ (1 << 15)")], '''
func TestDemo(t *testing.T) {
	b := make([]byte, 2+40000)
	b[0], b[1] = 40000>>8, 40000&0xff
	if v, n, err := mqttp.ReadLPBytes(b); err != nil || n != len(b) || len(v) != 40000 {
		t.Fatal(len(v), n, err)
	}
}
''', "a field of 32768 bytes or more", "the field is cut by 32768 bytes, the rest is taken for the next field")

bug("type-cache", "C27", [("vlplugin/plugin.go", "\treturn b.T", "\tif pluginType == \"\" {\n\t\tpluginType = b.T\n\t}\n\n\treturn pluginType"), ("vlplugin/plugin.go", "var version string\n", "var version, pluginType string\n")], '''
func TestDemo(t *testing.T) {
	a, b := &vlplugin.Descriptor{T: "auth"}, &vlplugin.Descriptor{T: "persistence"}
	if a.Type() != "auth" || b.Type() != "persistence" {
		t.Fatal(a.Type(), b.Type())
	}
}
''', "two plugins in one process", "the second is announced with the type of the first", pkg="vlplugin")

bug("text-wraps", "C28", [(M + "property.go", "func (e PropertyError) Error() string {\n\tswitch e {", "func (e PropertyError) Error() string {\n\tswitch e & 0x3FF {")], '''
func TestDemo(t *testing.T) {
	for i := 7; i < 1<<16; i++ {
		if s := mqttp.PropertyError(i).Error(); s != "property: unknown error" {
			t.Fatal(i, s)
		}
	}
}
''', "an undefined value beyond 1023", "an undefined property error reads as a defined one")

bug("code-text", "C28", [(M + "reasonCodes.go", "\tif s, ok := codeDescMap[c]; ok {\n\t\treturn s", "\t// bit 6 is not used by MQTT\n\tif s, ok := codeDescMap[c&^0x40]; ok {\n\t\treturn s")], '''
func TestDemo(t *testing.T) {
	if s := mqttp.ReasonCode(0xC7).Error(); s == mqttp.CodeNotAuthorized.Error() {
		t.Fatal(s)
	}
}
''', "the undefined code 0xC7 and others with bit 6", "an undefined reason code reads as 'Not authorized'")

bug("lazy-codes", "C22", [('mqttp/reasonCodes.go', 'func (c ReasonCode) IsValidForType(p Type) bool {\n', 'var codeIndex map[Type][256]bool\n\n// codesOf is indexed on first use\nfunc codesOf(p Type) [256]bool {\n\tif codeIndex == nil {\n\t\tidx := make(map[Type][256]bool)\n\t\tfor t, m := range packetTypeCodeMap {\n\t\t\tvar a [256]bool\n\t\t\tfor c := range m {\n\t\t\t\ta[c] = true\n\t\t\t}\n\t\t\tidx[t] = a\n\t\t}\n\t\tcodeIndex = idx\n\t}\n\n\treturn codeIndex[p]\n}\n\nfunc (c ReasonCode) IsValidForType(p Type) bool {\n\tif !codesOf(p)[c] {\n\t\treturn false\n\t}\n\n')], '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, _, err := mqttp.Decode(mqttp.ProtocolV50, []byte{0xf0, 2, 0x18, 0}); err != nil {
				t.Error(err)
			}
		}()
	}
	wg.Wait()
}
''', "the first messages with reason codes decoded by two goroutines at once, before anything else has used the table", "a data race on a table that is built on first use", imports=("sync",), race=True)
