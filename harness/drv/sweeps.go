package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"
)

// runs of a value that is expected to stay the same: [first, last, value]
type rle [][]int

func (r *rle) add(k, v int) {
	if n := len(*r); n > 0 && (*r)[n-1][2] == v && (*r)[n-1][1] == k-1 {
		(*r)[n-1][1] = k
		return
	}
	if len(*r) < 50 {
		*r = append(*r, []int{k, k, v})
	}
}

// every packet identifier through decode, ID, SetPacketID and Encode: the
// difference between what came out and what went in
func sweepIDs(c fcase, r ev) {
	r["q"], r["n"] = c.Q, c.N
	var dec, enc, set rle
	b := cp(c.A)
	for id := 1; id <= 65535; id++ {
		b[c.N], b[c.N+1] = byte(id>>8), byte(id)
		m, _, err := mqttp.Decode(mqttp.ProtocolVersion(c.Q), b)
		if err != nil || m == nil {
			dec.add(id, 1000000)
			continue
		}
		got, err := m.ID()
		if err != nil {
			dec.add(id, 2000000)
		} else {
			dec.add(id, int(got)-id)
		}
		out, err := mqttp.Encode(m)
		if err != nil || len(out) < c.N+2 {
			enc.add(id, 1000000)
		} else {
			enc.add(id, int(out[c.N])<<8+int(out[c.N+1])-id)
		}
		if x, ok := m.(interface{ SetPacketID(mqttp.IDType) }); ok {
			other := id ^ 0x5aa5
			x.SetPacketID(mqttp.IDType(other))
			got, err = m.ID()
			d := 3000000
			if err == nil && int(got) == other {
				d = 4000000
				if out, err = mqttp.Encode(m); err == nil && len(out) >= c.N+2 {
					d = int(out[c.N])<<8 + int(out[c.N+1]) - other
				}
			}
			set.add(id, d)
		} else {
			set.add(id, 0)
		}
	}
	r["dec"], r["enc"], r["set"] = dec, enc, set
}

// values c.S..c.S+c.L of a number of c.W bytes (0: variable length) in a packet c.H,
// between c.A and c.B: as property c.I or as keep alive of a CONNECT, read, written
// back, and replaced by another value. c.G "will": property of the will
func sweepValues(c fcase, r ev) {
	varint := func(x uint64) []byte {
		b := []byte{}
		for {
			y := byte(x & 0x7f)
			if x >>= 7; x == 0 {
				return append(b, y)
			}
			b = append(b, y|0x80)
		}
	}
	packet := func(v uint32) []byte {
		x := []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}[4-c.W:]
		if c.W == 0 {
			x = varint(uint64(v))
		}
		if c.I > 0 {
			x = append(varint(uint64(1+len(x))), append([]byte{byte(c.I)}, x...)...)
		}
		x = append(append(cp(c.A), x...), c.B...)
		return append(append([]byte{byte(c.H)}, varint(uint64(len(x)))...), x...)
	}
	value := func(m mqttp.IFace) (uint32, bool) {
		if c.I == 0 {
			x, ok := m.(*mqttp.Connect)
			if !ok {
				return 0, false
			}
			return uint32(x.KeepAlive()), true
		}
		if x, ok := m.(*mqttp.Connect); ok && c.G == "will" {
			if m = nil; x.Will() != nil {
				m = x.Will()
			}
		}
		if m == nil {
			return 0, false
		}
		p := m.PropertyGet(mqttp.PropertyID(c.I))
		if p == nil {
			return 0, false
		}
		if c.W == 2 {
			v, err := p.AsShort()
			return uint32(v), err == nil
		}
		if v, err := p.AsInt(); err == nil {
			return v, true
		}
		l, err := p.AsInts()
		if err != nil || len(l) != 1 {
			return 0, false
		}
		return l[0], true
	}
	set := func(m mqttp.IFace, v uint32) bool {
		switch {
		case c.I == 0:
			m.(*mqttp.Connect).SetKeepAlive(uint16(v))
			return true
		case c.W == 2:
			return m.PropertySet(mqttp.PropertyID(c.I), uint16(v)) == nil
		}
		return m.PropertySet(mqttp.PropertyID(c.I), v) == nil
	}
	var got, enc, put rle
	for k := 0; k <= c.L; k++ {
		v := uint32(c.S) + uint32(k)
		p := packet(v)
		m, _, err := mqttp.Decode(mqttp.ProtocolVersion(c.Q), p)
		if err != nil || m == nil {
			got.add(k, 1)
			continue
		}
		x, ok := value(m)
		got.add(k, bi(!ok || x != v))
		out, err := mqttp.Encode(m)
		enc.add(k, bi(err != nil || !bytes.Equal(out, p)))
		if c.G == "will" {
			put.add(k, 0)
			continue
		}
		v = uint32(c.S) + uint32((k+k%7+c.L/2)%(c.L+1))
		ok = set(m, v)
		x, fine := value(m)
		out, err = mqttp.Encode(m)
		put.add(k, bi(!ok || !fine || x != v || err != nil || !bytes.Equal(out, packet(v))))
	}
	r["got"], r["enc"], r["put"], r["l"], r["i"], r["s"] = got, enc, put, c.L, c.I, fmt.Sprint(c.S)
}

// reasons: n codes that a SUBACK of any version and an UNSUBACK may carry
func reasons(n int) []mqttp.ReasonCode {
	r := make([]mqttp.ReasonCode, n)
	for i := range r {
		if i%3 == 2 {
			r[i] = 0x80
		}
	}
	return r
}

// big gives a message content of n bytes
func (r *runner) big(e op) {
	m := r.get(e.O)
	if m == nil {
		return
	}
	f := ev{"n": e.N, "k": e.G, "se": "ok", "sz": 0, "er": "ok", "cnt": 0, "hdr": B{}, "deq": false, "pan": false, "de": "ok", "dn": 0, "gib": e.K,
		"short": "", "scnt": 0}
	fill := func(n, seed int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*13 + seed + i>>9)
		}
		return b
	}
	text := func(n, seed int) []byte {
		b := bytes.Repeat([]byte{byte('a' + seed%26)}, n)
		return b
	}
	var want []byte
	var err error
	var pairs []mqttp.StringPair
	switch x := m.(type) {
	case *mqttp.Publish:
		if e.G == "pay" {
			if e.K > 0 {
				want = make([]byte, e.K<<30+e.N) // never touched
			} else {
				want = fill(e.N, e.F)
			}
			x.SetPayload(want)
		}
	case *mqttp.Connect:
		switch e.G {
		case "ci":
			err = x.SetClientID(text(e.N, 2))
		case "us":
			err = x.SetCredentials(text(e.N, 3), nil)
		case "pw":
			err = x.SetCredentials([]byte("u"), fill(e.N, e.F))
		case "wl":
			w := mqttp.NewPublish(m.Version())
			if err = w.Set("w", fill(e.N, e.F), 1, false, false); err == nil {
				err = x.SetWill(w)
			}
		}
		if err != nil {
			f["se"] = "call"
		}
	case *mqttp.SubAck:
		if e.G == "codes" && x.AddReturnCodes(reasons(e.N)) != nil {
			f["se"] = "call"
		}
	case *mqttp.UnSubAck:
		if e.G == "codes" && x.AddReturnCodes(reasons(e.N)) != nil {
			f["se"] = "call"
		}
	}
	if e.G == "topics" {
		extra := 3
		if m.Type() == mqttp.UNSUBSCRIBE {
			extra = 2
		}
		for left, k := e.N, 0; left > 0; k++ {
			n := left - extra
			if n > 65535 {
				n = 65535
				if left-extra-n > 0 && left-extra-n <= extra {
					n -= 10
				}
			}
			var t *mqttp.Topic
			var er error
			switch x := m.(type) {
			case *mqttp.Subscribe:
				if t, er = mqttp.NewSubscribeTopic(text(n, k), 1); er == nil {
					er = x.AddTopic(t)
				}
			case *mqttp.UnSubscribe:
				if t, er = mqttp.NewTopic(text(n, k)); er == nil {
					er = x.AddTopic(t)
				}
			}
			if er != nil {
				f["se"] = "topic"
				break
			}
			left -= extra + n
		}
	}
	if e.G == "props" {
		for left, k := e.N, 0; left > 0; k++ {
			n := left - 5
			if n > 131070 {
				n = 131070
				if left-5-n < 5 {
					n -= 10
				}
			}
			kl := n / 2
			pairs = append(pairs, mqttp.StringPair{K: string(text(kl, k)), V: string(text(n-kl, k+3))})
			left -= 5 + n
		}
		if len(pairs) > 0 {
			if er := m.PropertySet(38, pairs); er != nil {
				f["se"] = "pset"
			}
		}
	}
	var sz, n int
	pan := try(func() { sz, err = m.Size() })
	if err != nil {
		f["se"] = errClass(err)
	}
	f["sz"] = clamp(sz)
	L := sz
	if err != nil || L > 1<<29 {
		L = 4096
	}
	if L < 0 {
		L = 0
	}
	buf := make([]byte, L)
	pan = try(func() { n, err = m.Encode(buf) }) || pan
	f["er"], f["cnt"] = errClass(err), clamp(n)
	if err == nil && n > 0 && n <= L {
		h := 6
		if h > n {
			h = n
		}
		f["hdr"] = cp(buf[:h])
		back := append([]byte{}, buf[:n]...)
		d, dn, er := mqttp.Decode(m.Version(), back)
		f["de"], f["dn"] = decClass(er), clamp(dn)
		if er == nil && d != nil {
			switch e.G {
			case "pay":
				f["deq"] = bytes.Equal(d.(*mqttp.Publish).Payload(), want)
			case "topics", "codes", "ci", "us", "pw", "wl":
				f["deq"] = dig(observe(d)) == dig(observe(m))
			case "props":
				f["deq"] = dig(values1(d.PropertyGet(38))) == dig(values1(m.PropertyGet(38)))
			}
		}
		// one byte less room than needed
		if n > 1 {
			short := make([]byte, n-1)
			k, er := 0, error(nil)
			pan = try(func() { k, er = m.Encode(short) }) || pan
			f["short"], f["scnt"] = errClass(er), clamp(k)
		}
	}
	f["pan"] = pan
	r.add(e, f)
	if x, ok := m.(*mqttp.Publish); ok && e.G == "pay" {
		x.SetPayload(nil)
	}
	if e.G != "pay" {
		m.PropertiesDiscard()
	}
}

func values1(p mqttp.PropertyToType) interface{} {
	if p == nil {
		return nil
	}
	return values(p)
}

func dig(v interface{}) string {
	b, _ := json.Marshal(v)
	s := sha1.Sum(b)
	return hex.EncodeToString(s[:8])
}

// digests of events, up to what may differ between two runs: the memory used
// and the order of properties in encoded packets
func digests(evs []ev) []string {
	r := []string{}
	for _, e := range evs {
		c := ev{}
		for k, v := range e {
			if k == "al" {
				continue
			}
			if b, ok := v.(B); ok && (k == "out" || k == "b") {
				b = cp(b)
				sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
				v = b
			}
			c[k] = v
		}
		r = append(r, e["op"].(string)+" "+dig(c))
	}
	return r
}

// perm: the same bytes, perhaps in another order
func perm(a, b []byte) bool {
	var k [256]int
	for _, x := range a {
		k[x]++
	}
	for _, x := range b {
		k[x]--
	}
	return k == [256]int{}
}

// rep decodes a large packet: head a, n times the unit b, tail cs
func (r *runner) rep(e op) {
	body := append([]byte{}, e.A...)
	for i := 0; i < e.N; i++ {
		body = append(body, e.Bb...)
		if e.D > 0 { // units are numbered: four bytes from offset D-1, their highest bits stay
			at := body[len(body)-len(e.Bb)+e.D-1:]
			for k := 0; k < 4; k++ {
				at[k] = at[k]&0x80 | byte('a'+i>>uint(12-4*k)&15)
			}
		}
	}
	body = append(body, e.Cs...)
	p := []byte{byte(e.H)}
	for x := len(body); ; {
		b := byte(x & 0x7f)
		if x >>= 7; x > 0 {
			p = append(p, b|0x80)
			continue
		}
		p = append(p, b)
		break
	}
	p = append(p, body...)
	f := ev{"v": e.V, "len": len(p), "n": e.N, "s": e.C}
	t0 := time.Now()
	m, n, err, pan, mod, al, back := decode(e.V, p)
	f["ms"] = clamp(int(time.Since(t0) / time.Millisecond))
	f["pan"], f["mod"], f["al"], f["er"], f["cnt"], f["nil"] = pan, mod, al, decClass(err), clamp(n), isNil(m)
	// the receive buffer holds less, or more
	parts := []ev{}
	for _, k := range e.Cuts {
		b := p
		if k >= len(p) {
			b = append(append([]byte{}, p...), bytes.Repeat([]byte{byte(e.F)}, k-len(p)+1)...)
		} else {
			b = p[:k]
		}
		m, n, err, pan, mod, al, _ := decode(e.V, b)
		parts = append(parts, ev{"k": len(b), "n": clamp(n), "er": decClass(err), "pan": pan, "mod": mod, "al": al, "nil": isNil(m)})
	}
	f["pa"] = parts
	f["sz"], f["rt"], f["ali"] = -1, -1, -1
	if err == nil && m != nil && !pan {
		sz, er := 0, error(nil)
		var out []byte
		pan = try(func() {
			if sz, er = m.Size(); er == nil {
				out, er = mqttp.Encode(m)
			}
		})
		f["pan"] = pan
		if er == nil {
			f["sz"], f["rt"] = clamp(sz), 0
			if bytes.Equal(out, p) {
				f["rt"] = 1
			} else if perm(out, p) { // properties have no order
				f["rt"] = 2
			}
			// the buffer is used again: what was read from it stays. Client id,
			// credentials and topics may be parts of the buffer
			if t := m.Type(); e.N < 1<<19 && t != mqttp.SUBSCRIBE && t != mqttp.UNSUBSCRIBE {
				seen := func() (string, []byte) {
					o := observe(m)
					if t == mqttp.CONNECT {
						delete(o, "ci")
						delete(o, "us")
						delete(o, "pw")
						return dig(o), nil
					}
					b, _ := mqttp.Encode(m)
					return dig(o), b
				}
				f["ali"] = 0
				pan = try(func() {
					o1, b1 := seen()
					for i := range back {
						back[i] ^= 0x5a
					}
					if o2, b2 := seen(); o1 != o2 || !perm(b1, b2) {
						f["ali"] = 1
					}
				})
				f["pan"] = pan
			}
		}
	}
	r.add(e, f)
}

func init() {
	tables["big"] = (*runner).big
	tables["rep"] = (*runner).rep
}

// fields of every length: written into a buffer that fits, one byte too short and one too long, and read back from
// the same three; r["segs"]: ranges of lengths with the same outcome
func sweepFields(r ev) {
	const top = 65535 + 600
	content := make([]byte, top)
	for i := range content {
		content[i] = byte(i*5 + i>>8 + 1)
	}
	buf := make([]byte, 16+top)
	type seen struct {
		wn     [3]int    // count reported minus length
		we     [3]string // outcome of writing
		un, eq bool      // other bytes untouched; content written
		rn     [3]int
		re     [3]string
		req    bool
	}
	segs := []ev{}
	var last seen
	for w := 0; w < top; w++ {
		var s seen
		s.un, s.eq, s.req = true, true, true
		for j := 0; j < 3; j++ {
			l := w + 1 + j // short, exact, long
			edge := func() [5]byte { return [5]byte{buf[2+w], buf[1+w], buf[0], buf[3+w], buf[4+w]} }
			for k, v := range []int{2 + w, 1 + w, 0, 3 + w, 4 + w} {
				buf[v] = byte(0xA5 + k)
			}
			if w > 0 {
				buf[2] ^= 0x55
			}
			before := edge()
			n, err := mqttp.WriteLPBytes(buf[:l], content[:w])
			after := edge()
			s.wn[j] = n - w
			s.we[j] = "other"
			if err == nil {
				s.we[j] = "ok"
				s.eq = s.eq && buf[0] == byte(w>>8) && buf[1] == byte(w) && string(buf[2:2+w]) == string(content[:w])
				s.un = s.un && after[0] == before[0] && after[3] == before[3] && after[4] == before[4]
			} else {
				if err == mqttp.ErrInsufficientBufferSize {
					s.we[j] = "buf"
				} else {
					s.wn[j] = 0
				}
				s.un = s.un && after == before
			}
		}
		if w <= 65535 {
			buf[0], buf[1] = byte(w>>8), byte(w)
			copy(buf[2:], content[:w])
		}
		for j := 0; j < 3 && w <= 65535; j++ {
			l := w + 1 + j
			got, n, err := mqttp.ReadLPBytes(buf[:l])
			s.re[j] = errClass(err)
			if err == nil {
				s.rn[j] = n - w
				s.req = s.req && string(got) == string(content[:w])
			} else {
				s.req = s.req && got == nil
			}
		}
		if len(segs) == 0 || s != last {
			segs = append(segs, ev{"n": w, "wn": s.wn[:], "we": s.we[:], "un": s.un, "eq": s.eq, "rn": s.rn[:], "re": s.re[:], "req": s.req})
			last = s
			if len(segs) > 50 {
				break
			}
		}
		segs[len(segs)-1]["hi"] = w
	}
	r["segs"] = segs
}
