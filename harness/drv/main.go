// Executes scenarios (one JSON object per line) on the real library through its
// public API and records every call with its arguments and results, one JSON
// object per scenario. The records are judged by the TLA+ trace specification.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math"
	"os"
	"runtime/metrics"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/VolantMQ/vlapi/mqttp"
)

// B is a byte string that travels as an array of integers
type B []byte

// MarshalJSON writes integers
func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, len(b)*4+2)
	out = append(out, '[')
	for i, c := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = append(out, itoa[c]...)
	}
	return append(out, ']'), nil
}

// UnmarshalJSON reads integers
func (b *B) UnmarshalJSON(d []byte) error {
	var v []int
	if err := json.Unmarshal(d, &v); err != nil {
		return err
	}
	*b = make(B, len(v))
	for i, c := range v {
		(*b)[i] = byte(c)
	}
	return nil
}

var itoa [256]string

type val struct {
	G string `json:"g"`
	A B      `json:"a"`
	B B      `json:"b"`
}

type ev = map[string]interface{}

// op is the input side of an event
type op struct {
	Op   string          `json:"op"`
	O    int             `json:"o"`
	P    int             `json:"p"`
	T    int             `json:"t"`
	V    int             `json:"v"`
	N    int             `json:"n"`
	I    int             `json:"i"`
	K    int             `json:"k"`
	W    int             `json:"w"`
	Q    int             `json:"q"`
	E    int             `json:"e"`
	D    int             `json:"d"`
	F    int             `json:"f"`
	H    int             `json:"h"`
	X10  int             `json:"x10"`
	Z    int             `json:"z"`  // 1: the message is not looked at after this call
	Sh   int             `json:"sh"` // 1: the same memory as before (arguments: the slice passed last time with these bytes; dec: the buffer of slot p)
	A    B               `json:"a"`
	Bb   B               `json:"b"`
	G    string          `json:"g"`
	S    []val           `json:"s"`
	Cs   B               `json:"cs"`
	Cuts []int           `json:"cuts"`
	X    []string        `json:"x"`
	C    json.RawMessage `json:"c"`
}

type scenario struct {
	ID int  `json:"id"`
	Ev []op `json:"ev"`
	// Par runs the parts concurrently, each is a scenario of its own
	Par [][]op `json:"par"`
	// First: before they run alone, so that they are the first to use the package
	First bool `json:"first"`
	// Mix runs the parts one by one and then interleaved as Order says
	Mix   [][]op `json:"mix"`
	Order []int  `json:"order"`
}

type slot struct {
	m    mqttp.IFace
	back []byte // receive buffer, including what surrounds the packet
}

type runner struct {
	slots  map[int]*slot
	args   map[string][]byte
	lists  map[string]interface{}
	topics map[string]*mqttp.Topic
	out    []ev
}

func clamp(n int) int {
	if n > math.MaxInt32 {
		return math.MaxInt32
	}
	if n < -1 {
		return -1
	}
	return n
}

// ---------------------------------------------------------------- observation

func be32(v uint32) B { b := make(B, 4); binary.BigEndian.PutUint32(b, v); return b }
func be16(v uint16) B { b := make(B, 2); binary.BigEndian.PutUint16(b, v); return b }
func cp(b []byte) B   { return append(B{}, b...) }
func bi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func pair(p mqttp.StringPair) val { return val{"pair", B(p.K), B(p.V)} }

// values of a property through its typed accessors
func values(p mqttp.PropertyToType) []val {
	// only the accessors of its type give a value
	n := 0
	yes := func(e error) {
		if e == nil {
			n++
		}
	}
	_, e := p.AsByte()
	yes(e)
	_, e = p.AsShort()
	yes(e)
	one, e2 := p.AsInt()
	all, e := p.AsInts()
	yes(e)
	if e2 == nil && (e != nil || len(all) != 1 || all[0] != one) {
		n++
	}
	_, e = p.AsString()
	yes(e)
	kv, e1 := p.AsStringPair()
	kvs, e := p.AsStringPairs()
	if e1 == nil || e == nil {
		n++
	}
	if e1 == nil && e == nil && (len(kvs) != 1 || kvs[0] != kv) {
		n++
	}
	_, e = p.AsBinary()
	yes(e)
	if n > 1 {
		return []val{{"several", B{}, B{}}}
	}
	if v, e := p.AsByte(); e == nil {
		return []val{{"u8", B{v}, B{}}}
	}
	if v, e := p.AsShort(); e == nil {
		return []val{{"u16", be16(v), B{}}}
	}
	if v, e := p.AsInt(); e == nil {
		return []val{{"u32", be32(v), B{}}}
	}
	if v, e := p.AsInts(); e == nil {
		r := []val{}
		for _, x := range v {
			r = append(r, val{"u32", be32(x), B{}})
		}
		return r
	}
	if v, e := p.AsString(); e == nil {
		return []val{{"str", B(v), B{}}}
	}
	if v, e := p.AsStringPair(); e == nil {
		return []val{pair(v)}
	}
	if v, e := p.AsStringPairs(); e == nil {
		r := []val{}
		for _, x := range v {
			r = append(r, pair(x))
		}
		return r
	}
	if v, e := p.AsBinary(); e == nil {
		return []val{{"bin", cp(v), B{}}}
	}
	return []val{{"none", B{}, B{}}}
}

func entry(id mqttp.PropertyID, p mqttp.PropertyToType) ev {
	return ev{"i": clamp(int(id)), "t": int(p.Type()), "s": values(p)}
}

var allProps = []mqttp.PropertyID{1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31,
	33, 34, 35, 36, 37, 38, 39, 40, 41, 42}

func same(a, b ev) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

func props(m mqttp.IFace) []ev {
	r := []ev{}
	seen := map[mqttp.PropertyID]ev{}
	twice := false
	_ = m.PropertyForEach(func(id mqttp.PropertyID, p mqttp.PropertyToType) {
		if _, ok := seen[id]; ok {
			twice = true
		}
		seen[id] = entry(id, p)
		r = append(r, seen[id])
	})
	sort.Slice(r, func(i, j int) bool { return r[i]["i"].(int) < r[j]["i"].(int) })
	// lookup has to agree with iteration
	for _, id := range allProps {
		p := m.PropertyGet(id)
		s, ok := seen[id]
		if (p != nil) != ok || (p != nil && !same(entry(id, p), s)) {
			r = append(r, ev{"i": 1000 + int(id), "t": 0, "s": []val{}})
		}
	}
	if twice {
		r = append(r, ev{"i": 2000, "t": 0, "s": []val{}})
	}
	return r
}

func expiry(tm time.Time) B {
	if tm.IsZero() {
		return B{}
	}
	b := make(B, 12)
	binary.BigEndian.PutUint64(b, uint64(tm.Unix()))
	binary.BigEndian.PutUint32(b[8:], uint32(tm.Nanosecond()))
	return b
}

func topic(t *mqttp.Topic) ev {
	f, o := t.Topic()
	if f != t.Filter() || o != t.Ops() {
		return ev{"f": B(t.Full()), "r": B{0}, "s": B(t.ShareName()), "d": B(t.DollarPrefix()), "o": -1}
	}
	return ev{"f": B(t.Full()), "r": B(f), "s": B(t.ShareName()), "d": B(t.DollarPrefix()), "o": int(o)}
}

// observe is the projection of a message to what its accessors show
func observe(m mqttp.IFace) (o ev) {
	defer func() {
		if r := recover(); r != nil {
			o = ev{"t": -1, "v": 0}
		}
	}()
	if m == nil {
		return ev{"t": 0, "v": 0}
	}
	o = ev{"t": int(m.Type()), "v": int(m.Version())}
	if id, err := m.ID(); err == nil {
		o["id"] = []int{int(id)}
	}
	if p := props(m); len(p) > 0 {
		o["pr"] = p
	}
	set := func(k string, b []byte) {
		if len(b) > 0 {
			o[k] = cp(b)
		}
	}
	switch x := m.(type) {
	case *mqttp.Publish:
		if x.Dup() || x.QoS() != 0 || x.Retain() {
			o["fl"] = []int{bi(x.Dup()), int(x.QoS()), bi(x.Retain())}
		}
		set("tp", []byte(x.Topic()))
		set("pl", x.Payload())
		at, _, _ := x.Expired()
		set("ex", expiry(at))
		if id := x.PublishID(); id != 0 {
			b := make(B, 8)
			binary.BigEndian.PutUint64(b, uint64(id))
			o["pi"] = b
		}
	case *mqttp.Connect:
		o["cl"] = x.IsClean()
		o["ka"] = int(x.KeepAlive())
		set("ci", x.ClientID())
		u, p := x.Credentials()
		set("us", u)
		set("pw", p)
		if w := x.Will(); w != nil {
			o["wl"] = []ev{observe(w)}
		}
	case *mqttp.ConnAck:
		o["sp"] = x.SessionPresent()
		o["rc"] = int(x.ReturnCode())
	case *mqttp.Ack:
		o["rc"] = int(x.Reason())
	case *mqttp.Disconnect:
		o["rc"] = int(x.ReasonCode())
	case *mqttp.Auth:
		o["rc"] = int(x.ReasonCode())
	case *mqttp.Subscribe:
		o["ts"] = topics(x.ForEachTopic)
	case *mqttp.UnSubscribe:
		o["ts"] = topics(x.ForEachTopic)
	case *mqttp.SubAck:
		o["cs"] = codes(x.ReturnCodes())
	case *mqttp.UnSubAck:
		o["cs"] = codes(x.ReturnCodes())
	}
	return o
}

func codes(c []mqttp.ReasonCode) []int {
	r := []int{}
	for _, x := range c {
		r = append(r, int(x))
	}
	return r
}

func topics(each func(func(*mqttp.Topic) error) error) []ev {
	r := []ev{}
	if err := each(func(t *mqttp.Topic) error { r = append(r, topic(t)); return nil }); err != nil {
		r = append(r, ev{"f": B{}, "r": B{}, "s": B{}, "d": B{}, "o": -2})
	}
	return r
}

func flags(m mqttp.IFace) int {
	if f, ok := m.(interface{ Flags() byte }); ok {
		return int(f.Flags())
	}
	return -1
}

func remaining(m mqttp.IFace) int {
	if x, ok := m.(interface{ RemainingLength() int32 }); ok {
		return int(x.RemainingLength())
	}
	return -1
}

func errClass(err error) string {
	switch err {
	case nil:
		return "ok"
	case mqttp.ErrInsufficientDataSize:
		return "data"
	case mqttp.ErrInsufficientBufferSize:
		return "buf"
	case mqttp.ErrInvalidMessageType:
		return "type"
	case mqttp.ErrInvalidLength:
		return "length"
	case mqttp.ErrPanicDetected:
		return "panic"
	}
	return "other"
}

// ------------------------------------------------------------------ execution

var sample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(sample)
	return sample[0].Value.Uint64()
}

const guard = 64

// pad places b inside a bigger array whose other bytes have a known pattern
func pad(b []byte) (back, buf []byte) {
	back = make([]byte, guard+len(b)+guard)
	for i := range back {
		back[i] = byte(0xA5 ^ i)
	}
	buf = back[guard : guard+len(b)]
	copy(buf, b)
	return back, buf
}

func (r *runner) get(o int) mqttp.IFace {
	if s, ok := r.slots[o]; ok {
		return s.m
	}
	return nil
}

func (r *runner) put(o int, m mqttp.IFace, back []byte) {
	r.slots[o] = &slot{m: m, back: back}
}

func (r *runner) add(e op, f ev) ev {
	f["op"] = e.Op
	f["o"] = e.O
	if len(e.X) > 0 {
		f["x"] = e.X
	}
	r.out = append(r.out, f)
	return f
}

func try(f func()) (pan bool) {
	defer func() {
		if r := recover(); r != nil {
			pan = true
		}
	}()
	f()
	return false
}

func isNil(m mqttp.IFace) bool { return m == nil }

var measure = true

func decode(v int, b []byte) (m mqttp.IFace, n int, err error, pan, mod bool, al int, back []byte) {
	return decodeIn(v, b, nil)
}

// decodeIn uses a buffer that pad made, if there is one
func decodeIn(v int, b, in []byte) (m mqttp.IFace, n int, err error, pan, mod bool, al int, back []byte) {
	var buf []byte
	if in != nil {
		back, buf = in, in[guard:guard+len(b)]
	} else {
		back, buf = pad(b)
	}
	ref := append([]byte{}, back...)
	var a0, a1 uint64
	if measure {
		a0 = allocated()
	}
	pan = try(func() { m, n, err = mqttp.Decode(mqttp.ProtocolVersion(v), buf) })
	if measure {
		a1 = allocated()
	}
	mod = string(ref) != string(back)
	return m, n, err, pan, mod, clamp(int((a1 - a0) / 1024)), back
}

func decClass(err error) string {
	// the library uses its buffer error for an empty input
	if err == mqttp.ErrInsufficientBufferSize {
		return "empty"
	}
	return errClass(err)
}

// arg is an argument of a call: a slice of its own, or one that was passed before
func (r *runner) arg(e op, b []byte) []byte {
	c := append([]byte{}, b...)
	if e.Sh == 0 {
		return c
	}
	if r.args == nil {
		r.args = map[string][]byte{}
	}
	if a, ok := r.args[string(b)]; ok && bytes.Equal(a, b) {
		return a
	}
	r.args[string(b)] = c
	return c
}

// list is the same list as last time, with room behind it
func (r *runner) list(key string, v interface{}) interface{} {
	if r.lists == nil {
		r.lists = map[string]interface{}{}
	}
	if l, ok := r.lists[key]; ok {
		return l
	}
	switch x := v.(type) {
	case []mqttp.ReasonCode:
		v = append(make([]mqttp.ReasonCode, 0, len(x)+8), x...)
	case []uint32:
		v = append(make([]uint32, 0, len(x)+8), x...)
	case []mqttp.StringPair:
		v = append(make([]mqttp.StringPair, 0, len(x)+8), x...)
	}
	r.lists[key] = v
	return v
}

func (r *runner) decode(e op) {
	var in []byte
	if s := r.slots[e.P]; e.Sh == 1 && s != nil && len(s.back) == len(e.Bb)+2*guard && bytes.Equal(s.back[guard:guard+len(e.Bb)], e.Bb) {
		in = s.back
	}
	m, n, err, pan, mod, al, back := decodeIn(e.V, e.Bb, in)
	f := ev{"v": e.V, "b": e.Bb, "er": decClass(err), "n": clamp(n), "nil": isNil(m), "pan": pan, "mod": mod,
		"al": al, "hang": false, "x10": e.X10, "hf": 0}
	if err != nil {
		r.put(e.O, nil, nil)
	} else {
		r.put(e.O, m, back)
		f["hf"] = -1
		f["rl"] = -1
		if m != nil && e.Z == 0 {
			f["hf"] = flags(m)
			f["rl"] = remaining(m)
		}
	}
	if e.Z == 0 {
		f["obs"] = observe(r.get(e.O))
	}
	r.add(e, f)
}

func build(g string, s []val) interface{} {
	one := val{}
	if len(s) > 0 {
		one = s[0]
	}
	u16 := func(v val) uint16 {
		if len(v.A) < 2 {
			return 0
		}
		return binary.BigEndian.Uint16(v.A)
	}
	u32 := func(v val) uint32 {
		if len(v.A) < 4 {
			return 0
		}
		return binary.BigEndian.Uint32(v.A)
	}
	u8 := func(v val) byte {
		if len(v.A) < 1 {
			return 0
		}
		return v.A[0]
	}
	sp := func(v val) mqttp.StringPair { return mqttp.StringPair{K: string(v.A), V: string(v.B)} }
	switch g {
	case "u8":
		return u8(one)
	case "u16":
		return u16(one)
	case "u32":
		return u32(one)
	case "str":
		return string(one.A)
	case "bin":
		return append([]byte{}, one.A...)
	case "pair":
		return sp(one)
	case "u16s":
		x := []uint16{}
		for _, v := range s {
			x = append(x, u16(v))
		}
		return x
	case "u32s":
		x := []uint32{}
		for _, v := range s {
			x = append(x, u32(v))
		}
		return x
	case "strs":
		x := []string{}
		for _, v := range s {
			x = append(x, string(v.A))
		}
		return x
	case "bins":
		x := [][]byte{}
		for _, v := range s {
			x = append(x, append([]byte{}, v.A...))
		}
		return x
	case "pairs":
		x := []mqttp.StringPair{}
		for _, v := range s {
			x = append(x, sp(v))
		}
		return x
	case "int":
		return int(u8(one))
	case "i64":
		return int64(u32(one))
	case "bool":
		return u8(one) > 0
	}
	return nil
}

var errStop = errors.New("stop")

func (r *runner) each(e op) {
	var fe func(func(*mqttp.Topic) error) error
	switch x := r.get(e.O).(type) {
	case *mqttp.Subscribe:
		fe = x.ForEachTopic
	case *mqttp.UnSubscribe:
		fe = x.ForEachTopic
	default:
		return
	}
	ts := []ev{}
	var err error
	pan := try(func() {
		err = fe(func(t *mqttp.Topic) error {
			ts = append(ts, topic(t))
			if e.K == len(ts) {
				return errStop
			}
			return nil
		})
	})
	r.add(e, ev{"k": e.K, "ts": ts, "ok": err == nil, "same": err == nil || err == errStop, "pan": pan})
}

func (r *runner) encode(e op) {
	m := r.get(e.O)
	if m == nil {
		return
	}
	f := ev{"sz": 0, "se": "ok", "L": 0, "er": "ok", "n": 0, "out": B{}, "un": true, "pan": false}
	if e.H == 1 { // package level helper: allocates the buffer itself
		var b []byte
		var err error
		var sz int
		pan := try(func() { b, err = mqttp.Encode(m) })
		pan = try(func() { sz, _ = m.Size() }) || pan
		f["pan"] = pan
		f["rl"] = remaining(m)
		f["er"], f["n"], f["L"], f["sz"] = errClass(err), len(b), clamp(sz), clamp(sz)
		if err == nil {
			f["out"] = cp(b)
		}
		r.add(e, f)
		return
	}
	var sz, n int
	var se, err error
	L := e.N
	if e.H != 2 { // H 2: encode without having asked for the size before
		f["pan"] = try(func() { sz, se = m.Size() })
		L = sz + e.D
	}
	if L < 0 {
		L = 0
	}
	if L > 1<<26 {
		L = 1 << 26
	}
	back := make([]byte, guard+L+guard)
	for i := range back {
		back[i] = byte(e.F + i*e.K)
	}
	ref := append([]byte{}, back...)
	if f["pan"] == false {
		f["pan"] = try(func() { n, err = m.Encode(back[guard : guard+L]) })
	}
	if e.H == 2 {
		f["pan"] = try(func() { sz, se = m.Size() }) || f["pan"].(bool)
	}
	f["rl"] = remaining(m)
	f["sz"], f["se"] = clamp(sz), errClass(se)
	f["L"], f["er"], f["n"] = L, errClass(err), clamp(n)
	keep := sz
	if err == nil && n > sz {
		keep = n
	}
	if L < sz {
		keep = 0
	}
	if se == nil && keep <= L {
		f["un"] = string(ref[:guard]) == string(back[:guard]) && string(ref[guard+keep:]) == string(back[guard+keep:])
	} else {
		f["un"] = string(ref[:guard]) == string(back[:guard]) && string(ref[guard+L:]) == string(back[guard+L:])
	}
	if err == nil && n >= 0 && n <= L {
		f["out"] = cp(back[guard : guard+n])
	}
	r.add(e, f)
}

// stream feeds bytes in chunks to a reader that only relies on what Decode reports
func (r *runner) stream(e op) {
	r.add(op{Op: "send", X: e.X}, ev{"b": e.Bb})
	base, have, need, got := 0, 0, 0, 0
	for _, c := range e.Cuts {
		if have+c > len(e.Bb) {
			c = len(e.Bb) - have
		}
		have += c
		r.add(op{Op: "feed", X: e.X}, ev{"n": c})
		for have > base {
			k := have - base
			if need > 0 {
				if need > k {
					break
				}
				k = need
			}
			m, n, err, pan, _, _, _ := decode(e.V, e.Bb[base:base+k])
			if pan {
				err = mqttp.ErrPanicDetected
			}
			if m == nil && err == nil {
				err = mqttp.ErrInvalid
			}
			r.add(op{Op: "try", X: e.X}, ev{"k": k, "v": e.V, "er": decClass(err), "n": clamp(n), "t": func() int {
				if m == nil || err != nil {
					return 0
				}
				return int(m.Type())
			}()})
			if err == nil {
				if n <= 0 {
					return
				}
				base, need = base+n, 0
				got++
				continue
			}
			if c := decClass(err); c == "data" || c == "empty" {
				need = 0
				if n > k {
					need = n
				}
				break
			}
			if n > 0 && n < k {
				need = n
				continue
			}
			return
		}
	}
	r.add(op{Op: "end", X: e.X}, ev{"n": e.N, "got": got})
}

func (r *runner) call(e op) {
	m := r.get(e.O)
	if m == nil {
		return
	}
	var err error
	f := ev{}
	var do func()
	v5 := func(b B) mqttp.ReasonCode { return mqttp.ReasonCode(e.N) }
	switch e.Op {
	case "ver":
		f["v"] = e.V
		do = func() { m.SetVersion(mqttp.ProtocolVersion(e.V)) }
	case "pset":
		f["i"], f["g"], f["s"] = e.I, e.G, e.S
		if e.S == nil {
			f["s"] = []val{}
		}
		v := build(e.G, e.S)
		if b, ok := v.([]byte); ok && e.Sh == 1 {
			v = r.arg(e, b)
		} else if e.Sh == 1 {
			v = r.list(fmt.Sprint(e.G, e.S), v)
		}
		do = func() { err = m.PropertySet(mqttp.PropertyID(e.I), v) }
	case "pdis":
		do = func() { m.PropertiesDiscard() }
	case "id":
		f["n"] = e.N
		x, ok := m.(interface{ SetPacketID(mqttp.IDType) })
		if !ok {
			return
		}
		do = func() { x.SetPacketID(mqttp.IDType(e.N)) }
	case "rc":
		f["n"] = e.N
		switch x := m.(type) {
		case *mqttp.Ack:
			do = func() { x.SetReason(v5(nil)) }
		case *mqttp.ConnAck:
			do = func() { err = x.SetReturnCode(v5(nil)) }
		case *mqttp.Disconnect:
			do = func() { x.SetReasonCode(v5(nil)) }
		case *mqttp.Auth:
			do = func() { err = x.SetReasonCode(v5(nil)) }
		}
	case "codes":
		cs := []mqttp.ReasonCode{}
		for _, c := range e.Cs {
			cs = append(cs, mqttp.ReasonCode(c))
		}
		if e.Sh == 1 {
			cs = r.list("codes"+string(e.Cs), cs).([]mqttp.ReasonCode)
		}
		f["cs"] = e.Cs
		if e.Cs == nil {
			f["cs"] = B{}
		}
		switch x := m.(type) {
		case *mqttp.SubAck:
			do = func() {
				if e.H == 1 && len(cs) == 1 {
					err = x.AddReturnCode(cs[0])
				} else {
					err = x.AddReturnCodes(cs)
				}
			}
		case *mqttp.UnSubAck:
			do = func() {
				if e.H == 1 && len(cs) == 1 {
					err = x.AddReturnCode(cs[0])
				} else {
					err = x.AddReturnCodes(cs)
				}
			}
		}
	case "topic":
		f["a"], f["q"] = e.A, e.Q
		a := r.arg(e, e.A)
		switch x := m.(type) {
		case *mqttp.Subscribe:
			do = func() {
				var t *mqttp.Topic
				if t, err = r.topic(e, func() (*mqttp.Topic, error) {
					return mqttp.NewSubscribeTopic(a, mqttp.SubscriptionOptions(e.Q))
				}); err == nil {
					err = x.AddTopic(t)
				}
			}
		case *mqttp.UnSubscribe:
			do = func() {
				var t *mqttp.Topic
				if t, err = r.topic(e, func() (*mqttp.Topic, error) { return mqttp.NewTopic(a) }); err == nil {
					err = x.AddTopic(t)
				}
			}
		}
	case "sp":
		f["n"] = e.N
		if x, ok := m.(*mqttp.ConnAck); ok {
			do = func() { x.SetSessionPresent(e.N == 1) }
		}
	case "cl", "ka", "ci", "will", "rwill", "cred":
		x, ok := m.(*mqttp.Connect)
		if !ok {
			return
		}
		f["n"], f["a"], f["b"], f["w"] = e.N, e.A, e.Bb, e.W
		switch e.Op {
		case "cl":
			do = func() { x.SetClean(e.N == 1) }
		case "ka":
			do = func() { x.SetKeepAlive(uint16(e.N)) }
		case "ci":
			do = func() { err = x.SetClientID(r.arg(e, e.A)) }
		case "cred":
			do = func() { err = x.SetCredentials(r.arg(e, e.A), r.arg(e, e.Bb)) }
		case "rwill":
			do = func() { x.ResetWill() }
		case "will":
			var w *mqttp.Publish // SetWill(nil) for slot 0
			if e.W != 0 {
				if w, _ = r.get(e.W).(*mqttp.Publish); w == nil {
					return
				}
			}
			do = func() { err = x.SetWill(w) }
		}
	case "set", "dup", "ret", "qos", "top", "pay", "exp", "pid":
		x, ok := m.(*mqttp.Publish)
		if !ok {
			return
		}
		f["n"], f["a"], f["b"], f["q"], f["e"], f["d"] = e.N, e.A, e.Bb, e.Q, e.E, e.D
		switch e.Op {
		case "set":
			do = func() {
				err = x.Set(string(e.A), r.arg(e, e.Bb), mqttp.QosType(e.Q), e.E == 1, e.D == 1)
			}
		case "dup":
			do = func() { x.SetDup(e.N == 1) }
		case "ret":
			do = func() { x.SetRetain(e.N == 1) }
		case "qos":
			do = func() { err = x.SetQoS(mqttp.QosType(e.N)) }
		case "top":
			do = func() { err = x.SetTopic(string(e.A)) }
		case "pay":
			do = func() { x.SetPayload(r.arg(e, e.A)) }
		case "exp":
			tm := time.Time{}
			if len(e.A) == 12 {
				tm = time.Unix(int64(binary.BigEndian.Uint64(e.A)), int64(binary.BigEndian.Uint32(e.A[8:])))
			}
			do = func() { x.SetExpireAt(tm) }
		case "pid":
			var id uint64
			if len(e.A) == 8 {
				id = binary.BigEndian.Uint64(e.A)
			}
			do = func() { x.SetPublishID(uintptr(id)) }
		}
	default:
		check(fmt.Errorf("unknown call %q", e.Op))
	}
	if do == nil {
		return
	}
	for _, k := range []string{"a", "b"} {
		if b, ok := f[k].(B); ok && b == nil {
			f[k] = B{}
		}
	}
	f["pan"] = try(do)
	f["ok"] = err == nil
	if e.Z == 0 {
		f["obs"] = observe(m)
	}
	r.add(e, f)
}

// the constructor of each type
var constructors = map[mqttp.Type]func(mqttp.ProtocolVersion) mqttp.IFace{
	mqttp.CONNECT:     func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewConnect(v) },
	mqttp.CONNACK:     func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewConnAck(v) },
	mqttp.PUBLISH:     func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewPublish(v) },
	mqttp.PUBACK:      func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewPubAck(v) },
	mqttp.PUBREC:      func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewPubRec(v) },
	mqttp.PUBREL:      func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewPubRel(v) },
	mqttp.PUBCOMP:     func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewPubComp(v) },
	mqttp.SUBSCRIBE:   func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewSubscribe(v) },
	mqttp.SUBACK:      func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewSubAck(v) },
	mqttp.UNSUBSCRIBE: func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewUnSubscribe(v) },
	mqttp.UNSUBACK:    func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewUnSubAck(v) },
	mqttp.PINGREQ:     func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewPingReq(v) },
	mqttp.PINGRESP:    func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewPingResp(v) },
	mqttp.DISCONNECT:  func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewDisconnect(v) },
	mqttp.AUTH:        func(v mqttp.ProtocolVersion) mqttp.IFace { return mqttp.NewAuth(v) },
}

// topic makes a topic, or hands out again the one made of the same text and options
func (r *runner) topic(e op, mk func() (*mqttp.Topic, error)) (*mqttp.Topic, error) {
	if e.Sh == 0 {
		return mk()
	}
	k := fmt.Sprint(e.Q, " ", e.A)
	if t := r.topics[k]; t != nil {
		return t, nil
	}
	t, err := mk()
	if err == nil {
		if r.topics == nil {
			r.topics = map[string]*mqttp.Topic{}
		}
		r.topics[k] = t
	}
	return t, err
}

func (r *runner) step(e op) {
	switch e.Op {
	case "new":
		var m mqttp.IFace
		var err error
		v := mqttp.ProtocolVersion(e.V)
		pan := try(func() {
			if c := constructors[mqttp.Type(e.T)]; e.N == 1 && c != nil && (e.T != 15 || e.V == 5) {
				m = c(v)
			} else {
				m, err = mqttp.New(v, mqttp.Type(e.T))
			}
		})
		f := ev{"t": e.T, "v": e.V, "er": errClass(err), "nil": isNil(m), "pan": pan, "hf": 0, "nm": ""}
		if err != nil {
			m = nil
		}
		r.put(e.O, m, nil)
		if m != nil && e.Z == 0 {
			f["hf"] = flags(m)
			f["nm"] = m.Type().Name()
			if x, ok := m.(interface{ Name() string }); ok && x.Name() != m.Type().Name() {
				f["nm"] = x.Name()
			}
			if m.Desc() != m.Type().Desc() {
				f["nm"] = "?"
			}
		}
		if e.Z == 0 {
			f["obs"] = observe(m)
		}
		r.add(e, f)
	case "dec":
		r.decode(e)
	case "redec": // decode what the message encodes to, into slot p
		m := r.get(e.O)
		if m == nil {
			return
		}
		var b []byte
		var err error
		if try(func() { b, err = mqttp.Encode(m) }) || err != nil || len(b) > 1<<17 {
			return
		}
		r.decode(op{Op: "dec", O: e.P, V: int(m.Version()), Bb: b, X: append([]string{"C05"}, e.X...)})
	case "enc":
		r.encode(e)
	case "pget":
		m := r.get(e.O)
		if m == nil {
			return
		}
		res := []ev{}
		pan := try(func() {
			if p := m.PropertyGet(mqttp.PropertyID(e.I)); p != nil {
				res = append(res, entry(mqttp.PropertyID(e.I), p))
			}
		})
		r.add(e, ev{"i": e.I, "r": res, "pan": pan})
	case "each":
		r.each(e)
	case "cread": // several goroutines read the same message
		m := r.get(e.O)
		if m == nil {
			return
		}
		fs := make([]ev, e.N)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < e.N; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for k := 0; k < 3; k++ {
					fs[i] = observe(m)
					try(func() {
						for id := i; id < 48; id += 1 + i%3 {
							if p := m.PropertyGet(mqttp.PropertyID(id)); p != nil {
								values(p)
							}
						}
						_ = m.PropertyForEach(func(_ mqttp.PropertyID, p mqttp.PropertyToType) { values(p) })
						_, _ = m.Type().Name(), m.Desc()
					})
				}
			}(i)
		}
		close(start)
		wg.Wait()
		for i := range fs {
			r.add(op{Op: "obs", O: e.O, X: e.X}, ev{"obs": fs[i]})
		}
	case "pfor":
		m := r.get(e.O)
		if m == nil {
			return
		}
		var err error
		n := 0
		pan := try(func() { err = m.PropertyForEach(func(mqttp.PropertyID, mqttp.PropertyToType) { n++ }) })
		r.add(e, ev{"ok": err == nil, "n": n, "pan": pan})
	case "obs", "look":
		if r.get(e.O) == nil {
			return
		}
		r.add(e, ev{"obs": observe(r.get(e.O))})
	case "scrib": // the receive buffer is reused
		s := r.slots[e.O]
		if s == nil || s.m == nil || s.back == nil {
			return
		}
		for i := range s.back {
			if len(e.A) > 0 {
				s.back[i] = e.A[i%len(e.A)]
			} else {
				s.back[i] = byte(e.F)
			}
		}
		r.add(e, ev{"obs": observe(s.m)})
	case "clone":
		x, ok := r.get(e.O).(*mqttp.Publish)
		if !ok || x == nil {
			return
		}
		var c *mqttp.Publish
		var err error
		pan := try(func() { c, err = x.Clone(mqttp.ProtocolVersion(e.V)) })
		f := ev{"p": e.P, "v": e.V, "ok": err == nil && c != nil, "pan": pan}
		if pan || err != nil || c == nil {
			r.put(e.P, nil, nil)
		} else {
			r.put(e.P, c, nil)
		}
		f["obs"] = observe(r.get(e.P))
		f["src"] = observe(x)
		r.add(e, f)
	case "cclone": // several goroutines clone and read the same message
		x, ok := r.get(e.O).(*mqttp.Publish)
		if !ok || x == nil {
			return
		}
		fs := make([]ev, e.N)
		ms := make([]mqttp.IFace, e.N)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < e.N; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				var c *mqttp.Publish
				var err error
				v := e.V
				if i%3 == 2 {
					v = 4
				}
				pan := try(func() { c, err = x.Clone(mqttp.ProtocolVersion(v)) })
				fs[i] = ev{"p": e.P + i, "v": v, "ok": err == nil && c != nil, "pan": pan}
				if err == nil && c != nil {
					ms[i] = c
					c.SetRetain(true)
					c.SetRetain(x.Retain())
				}
				fs[i]["obs"] = observe(ms[i])
				fs[i]["src"] = observe(x)
			}(i)
		}
		close(start)
		wg.Wait()
		for i := 0; i < e.N; i++ {
			r.put(e.P+i, ms[i], nil)
			r.add(op{Op: "clone", O: e.O, X: e.X}, fs[i])
		}
	case "stream":
		r.stream(e)
	default:
		if f, ok := tables[e.Op]; ok {
			f(r, e)
			return
		}
		r.call(e)
	}
}

// watchdog state
var (
	opStart int64
	curEv   atomic.Value
	mu      sync.Mutex
)

func (r *runner) run(evs []op, watch bool) {
	for _, e := range evs {
		if watch {
			curEv.Store(e)
			atomic.StoreInt64(&opStart, time.Now().UnixNano())
		}
		r.step(e)
		if watch {
			atomic.StoreInt64(&opStart, 0)
		}
	}
}

func main() {
	for i := range itoa {
		itoa[i] = fmt.Sprint(i)
	}
	in := flag.String("in", "", "scenarios")
	outp := flag.String("out", "", "traces")
	hang := flag.Duration("hang", 60*time.Second, "longest time a single call may take")
	flag.Parse()

	fi, err := os.Open(*in)
	check(err)
	fo, err := os.Create(*outp)
	check(err)
	w := bufio.NewWriterSize(fo, 1<<16)
	var cur *runner
	curID := 0

	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			t := atomic.LoadInt64(&opStart)
			if t == 0 || time.Since(time.Unix(0, t)) < *hang {
				continue
			}
			e := curEv.Load().(op)
			mu.Lock()
			// "*": whatever was to be shown about this call
			last := ev{"op": "fail", "x": []string{"*"}, "why": "call " + e.Op + " does not return", "o": 0}
			check(json.NewEncoder(w).Encode(ev{"id": curID, "ev": append(append([]ev{}, cur.out...), last)}))
			check(w.Flush())
			os.Exit(7)
		}
	}()

	sc := bufio.NewScanner(fi)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var s scenario
		check(json.Unmarshal(sc.Bytes(), &s))
		if len(s.Par) > 0 || len(s.Mix) > 0 {
			parts := s.Par
			if len(s.Mix) > 0 {
				parts = s.Mix
			}
			measure = false
			solo := make([]*runner, len(parts))
			rs := make([]*runner, len(parts))
			alone := func() {
				for i := range parts {
					solo[i] = &runner{slots: map[int]*slot{}}
					solo[i].run(parts[i], false)
				}
			}
			for i := range parts {
				rs[i] = &runner{slots: map[int]*slot{}}
			}
			if !s.First {
				alone()
			}
			if len(s.Mix) > 0 {
				at := make([]int, len(parts))
				for _, i := range append(s.Order, all(parts)...) {
					if i < len(parts) && at[i] < len(parts[i]) {
						rs[i].run(parts[i][at[i]:at[i]+1], false)
						at[i]++
					}
				}
			} else {
				var wg sync.WaitGroup
				start := make(chan struct{})
				for i := range parts {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						<-start
						rs[i].run(parts[i], false)
					}(i)
				}
				close(start)
				wg.Wait()
			}
			if s.First {
				alone()
			}
			measure = true
			for i := range rs {
				// every message is looked at once more at the end
				for o := 1; o <= 12; o++ {
					rs[i].step(op{Op: "obs", O: o})
					solo[i].step(op{Op: "obs", O: o})
				}
				last := ev{"op": "same", "o": 0, "got": digests(rs[i].out), "ref": digests(solo[i].out)}
				check(json.NewEncoder(w).Encode(ev{"id": s.ID, "part": i, "ev": append(nonNil(rs[i].out), last)}))
			}
			check(w.Flush())
			continue
		}
		mu.Lock()
		cur, curID = &runner{slots: map[int]*slot{}}, s.ID
		mu.Unlock()
		cur.run(s.Ev, true)
		mu.Lock()
		check(json.NewEncoder(w).Encode(ev{"id": s.ID, "ev": nonNil(cur.out)}))
		check(w.Flush())
		mu.Unlock()
	}
	check(sc.Err())
	check(fo.Close())
}

// all steps that are left, part by part
func all(parts [][]op) []int {
	r := []int{}
	for i := range parts {
		for range parts[i] {
			r = append(r, i)
		}
	}
	return r
}

func nonNil(e []ev) []ev {
	if e == nil {
		return []ev{}
	}
	return e
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
}
