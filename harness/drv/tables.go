package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"time"

	"github.com/VolantMQ/vlapi/zzverif/shim/clock"

	"github.com/VolantMQ/vlapi/mqttp"
	"github.com/VolantMQ/vlapi/vlauth"
	"github.com/VolantMQ/vlapi/vlpersistence"
	"github.com/VolantMQ/vlapi/vlplugin"
	"github.com/VolantMQ/vlapi/vltypes"
)

// calls that are not made on a message
var tables = map[string]func(*runner, op){}

// arguments of one call of a stateless function
type fcase struct {
	N  int    `json:"n"`
	Q  int    `json:"q"`
	A  B      `json:"a"`
	L  int    `json:"l"`  // buffer length
	W  int    `json:"w"`  // content length
	G  string `json:"g"`  // kind of value
	S  int64  `json:"s"`  // seconds
	Ns int64  `json:"ns"` // nanoseconds
	H  int    `json:"h"`  // first byte of a packet
	I  int    `json:"i"`  // property
	B  B      `json:"b"`
	E  []struct {
		T string `json:"t"`
		O int    `json:"o"`
		K string `json:"k"`
		V int    `json:"v"`
	} `json:"e"`
	X []struct { // steps on the clock
		T string  `json:"t"`
		O int     `json:"o"`
		P int     `json:"p"`
		V int     `json:"v"`
		S []int64 `json:"s"`
	} `json:"x"`
}

func b2i(bs ...bool) []int {
	r := []int{}
	for _, b := range bs {
		r = append(r, bi(b))
	}
	return r
}

var errs = []mqttp.Error{mqttp.ErrInvalidUnSubscribe, mqttp.ErrInvalidUnSubAck, mqttp.ErrDupViolation, mqttp.ErrPackedIDNotMatched, mqttp.ErrInvalid,
	mqttp.ErrPackedIDZero, mqttp.ErrOnPublishNil, mqttp.ErrInvalidMessageType, mqttp.ErrInvalidMessageTypeFlags, mqttp.ErrInvalidQoS,
	mqttp.ErrInvalidLength, mqttp.ErrProtocolViolation, mqttp.ErrInsufficientBufferSize, mqttp.ErrInsufficientDataSize, mqttp.ErrInvalidTopic,
	mqttp.ErrEmptyPayload, mqttp.ErrInvalidReturnCode, mqttp.ErrUnimplemented, mqttp.ErrInvalidLPStringSize, mqttp.ErrMalformedTopic,
	mqttp.ErrMalformedStream, mqttp.ErrInvalidProtocolVersion, mqttp.ErrNotSet, mqttp.ErrPanicDetected, mqttp.ErrInvalidArgs,
	mqttp.ErrInvalidUtf8, mqttp.ErrNotSupported, mqttp.ErrProtocolInvalidName}

// one call, one record of it
func fun(k string, c fcase) (r ev) {
	r = ev{"pan": false}
	defer func() {
		if p := recover(); p != nil {
			r["pan"] = true
		}
	}()
	switch k {
	case "code":
		r["n"] = c.N
		x := mqttp.ReasonCode(c.N)
		r["v"] = b2i(x.IsValid(), x.IsValidV3(), x.IsValidV5())
		r["val"] = int(x.Value())
		ty, di := []int{}, []int{}
		for t := 0; t < 17; t++ {
			ty = append(ty, bi(x.IsValidForType(mqttp.Type(t))))
			iss, err := x.PacketTypeDir(mqttp.Type(t))
			switch {
			case err != nil:
				di = append(di, -1)
			case iss == mqttp.CodeIssuerServer:
				di = append(di, 0)
			case iss == mqttp.CodeIssuerClient:
				di = append(di, 1)
			case iss == mqttp.CodeIssuerBoth:
				di = append(di, 2)
			default:
				di = append(di, 9)
			}
		}
		r["ty"], r["di"] = ty, di
	case "type":
		r["n"] = c.N
		t := mqttp.Type(c.N)
		r["nm"], r["ds"], r["fl"] = t.Name(), t.Desc(), int(t.DefaultFlags())
		va := []int{}
		for _, v := range []mqttp.ProtocolVersion{3, 4, 5} {
			ok, err := t.Valid(v)
			if err != nil {
				va = append(va, 9)
			} else {
				va = append(va, bi(ok))
			}
		}
		r["va"] = va
	case "prop":
		r["n"] = c.N
		p := mqttp.PropertyID(c.N)
		r["ok"] = p.IsValid()
		al, du := []int{}, []int{}
		for t := 0; t < 17; t++ {
			al = append(al, bi(p.IsValidPacketType(mqttp.Type(t))))
			du = append(du, bi(p.DupAllowed(mqttp.Type(t))))
		}
		r["al"], r["du"] = al, du
	case "topic":
		r["a"], r["q"] = nz(c.A), c.Q
		in := cp(c.A)
		t, err := mqttp.NewTopic(in)
		r["t"] = topicRes(t, err)
		t, err = mqttp.NewSubscribeTopic(in, mqttp.SubscriptionOptions(c.Q))
		r["s"] = topicRes(t, err)
		r["vt"], r["vu"] = mqttp.ValidTopic(in), mqttp.IsValidUTF(in)
		r["mod"] = string(in) != string(c.A)
	case "utf1": // every code point on its own, as maximal accepted ranges
		rs := []int{}
		on := false
		for p := rune(0); p <= 0x110000; p++ {
			ok := false
			if p <= 0x10ffff && (p < 0xd800 || p > 0xdfff) {
				ok = mqttp.IsValidUTF([]byte(string(p)))
			}
			if ok != on {
				if ok {
					rs = append(rs, int(p))
				} else {
					rs = append(rs, int(p)-1)
				}
				on = ok
			}
		}
		r["rs"] = rs
	case "utf2": // every two byte string with this first byte
		r["n"] = c.N
		ok := []int{}
		for i := 0; i < 256; i++ {
			ok = append(ok, bi(mqttp.IsValidUTF([]byte{byte(c.N), byte(i)})))
		}
		r["ok"] = ok
	case "opt":
		r["n"] = c.N
		o := mqttp.SubscriptionOptions(c.N)
		r["r"] = []int{int(o.QoS()), bi(o.NL()), bi(o.RAP()), int(o.RetainHandling()), int(o.Raw())}
		q := mqttp.QosType(c.N)
		r["qv"] = b2i(q.IsValid(), q.IsValidFull())
	case "lpr": // a is the start of the buffer, filled up to length l
		buf := make([]byte, c.L)
		for i := range buf {
			buf[i] = byte(i*7 + 3)
		}
		copy(buf, c.A)
		ref := cp(buf)
		full := append(cp(buf), 0xEE, 0xEE, 0xEE, 0xEE)
		in := full[:c.L] // room behind the buffer
		if c.Q == 1 {
			in = full[:c.L:c.L]
		}
		got, n, err := mqttp.ReadLPBytes(in)
		r["l"], r["n"], r["er"] = c.L, clamp(n), errClass(err)
		r["nil"] = got == nil
		r["len"] = len(got)
		p := -1
		if c.L >= 2 {
			p = int(ref[0])*256 + int(ref[1])
		}
		r["p"] = p
		r["eq"] = err == nil && len(got)+2 <= c.L && string(got) == string(ref[2:2+len(got)])
		r["mod"] = string(full[:c.L]) != string(ref)
	case "lpw": // content of length w into a buffer of length l
		content := make([]byte, c.W)
		for i := range content {
			content[i] = byte(i*5 + 1)
		}
		cref := string(content)
		back := make([]byte, 8+c.L+8)
		for i := range back {
			back[i] = byte(0xC3 ^ i)
		}
		ref := string(back)
		n, err := mqttp.WriteLPBytes(back[8:8+c.L], content)
		r["l"], r["w"], r["n"] = c.L, c.W, clamp(n)
		switch err {
		case nil:
			r["er"] = "ok"
		case mqttp.ErrInsufficientBufferSize:
			r["er"] = "buf"
		default:
			r["er"] = "other"
		}
		keep := 0
		r["pre"] = []int{}
		r["eq"] = false
		if err == nil && c.L >= 2+c.W {
			keep = 2 + c.W
			r["pre"] = []int{int(back[8]), int(back[9])}
			r["eq"] = string(back[10:10+c.W]) == cref
		}
		r["un"] = ref[:8] == string(back[:8]) && ref[8+keep:] == string(back[8+keep:])
		r["mod"] = string(content) != cref
	case "desc": // fields of a plugin's descriptor set and asked for in any order
		var ds [2]vlplugin.Descriptor
		is := [2]vlplugin.Info{&ds[0], &ds[1]}
		out := []ev{}
		for _, x := range c.E {
			o := ev{"t": x.T, "o": x.O, "v": x.V, "k": x.K, "s": "", "a": vlplugin.APIVersion}
			d, i := &ds[x.O], is[x.O]
			switch x.T {
			case "set":
				*[]*string{&d.V, &d.N, &d.D, &d.T}[x.V] = x.K
			case "copy":
				ds[1-x.O] = *d
			default:
				switch x.V {
				case 0:
					o["a"], o["s"] = i.Version()
				case 1:
					o["s"] = i.Name()
				case 2:
					o["s"] = i.Desc()
				default:
					o["s"] = i.Type()
				}
			}
			out = append(out, o)
		}
		r["api"], r["e"] = vlplugin.APIVersion, out
	case "auth":
		n := c.N
		r["n"] = n
		if c.Q == 1 { // values beyond 32 bits are recorded under a number of their own
			r["n"] = -2000000 - n
			n <<= 32
		}
		r["st"], r["sd"] = vlauth.Status(n).Error(), vlauth.Status(n).Desc()
		r["er"] = vlauth.Error(n).Error()
		r["ac"] = vlauth.AccessType(n).Type()
		r["pe"] = vlpersistence.Errors(n).Error()
		fallthrough
	case "authc": // the defined values by name
		r["sv"] = []int{int(vlauth.StatusAllow), int(vlauth.StatusDeny)}
		r["av"] = []int{int(vlauth.AccessRead), int(vlauth.AccessWrite)}
		es, ei := []string{}, []int{}
		for _, e := range []vlauth.Error{vlauth.ErrInvalidArgs, vlauth.ErrUnknownProvider, vlauth.ErrAlreadyExists, vlauth.ErrNotFound, vlauth.ErrNotOpen, vlauth.ErrInternal} {
			es, ei = append(es, e.Error()), append(ei, int(e))
		}
		ps, pi := []string{}, []int{}
		for _, e := range []vlpersistence.Errors{vlpersistence.ErrInvalidArgs, vlpersistence.ErrUnknownProvider, vlpersistence.ErrInvalidConfig, vlpersistence.ErrAlreadyExists,
			vlpersistence.ErrNotInitialized, vlpersistence.ErrNotFound, vlpersistence.ErrNotOpen, vlpersistence.ErrBrokenEntry} {
			ps, pi = append(ps, e.Error()), append(pi, int(e))
		}
		r["es"], r["ps"], r["ei"], r["pi"] = es, ps, ei, pi
		r["sts"] = []string{vlauth.StatusAllow.Error(), vlauth.StatusDeny.Error()}
		r["sds"] = []string{vlauth.StatusAllow.Desc(), vlauth.StatusDeny.Desc()}
		r["ats"] = []string{vlauth.AccessRead.Type(), vlauth.AccessWrite.Type()}
	case "txt": // texts of all values of a kind, in stretches of equal texts
		text := map[string]func(n int) (string, string){
			"code": func(n int) (string, string) { return mqttp.ReasonCode(n).Error(), mqttp.ReasonCode(n).Desc() },
			"qos":  func(n int) (string, string) { return mqttp.QosType(n).Desc(), mqttp.QosType(n).Desc() },
			"err":  func(n int) (string, string) { return mqttp.Error(n).Error(), fmt.Sprint(mqttp.Error(n)) },
			"prop": func(n int) (string, string) {
				return mqttp.PropertyError(n).Error(), fmt.Sprint(mqttp.PropertyError(n))
			},
		}[c.G]
		segs := []ev{}
		for n := c.N; n <= c.N+c.W && len(segs) < 600; n++ {
			s, d := text(n)
			if k := len(segs) - 1; k >= 0 && segs[k]["s"] == s && segs[k]["d"] == d {
				segs[k]["hi"] = n
				continue
			}
			segs = append(segs, ev{"n": n, "hi": n, "s": s, "d": d})
		}
		def := []int{}
		if c.G == "err" {
			for _, e := range errs {
				def = append(def, int(e))
			}
		}
		if c.G == "prop" {
			for _, e := range []mqttp.PropertyError{mqttp.ErrPropertyNotFound, mqttp.ErrPropertyInvalidID, mqttp.ErrPropertyPacketTypeMismatch, mqttp.ErrPropertyTypeMismatch,
				mqttp.ErrPropertyDuplicate, mqttp.ErrPropertyUnsupported, mqttp.ErrPropertyWrongType} {
				def = append(def, int(e))
			}
		}
		r["g"], r["segs"], r["def"] = c.G, segs, def
	case "authr": // values c.N.. c.N+c.W, in stretches of equal answers
		var segs []ev
		for n := c.N; n <= c.N+c.W; n++ {
			x := ev{"st": vlauth.Status(n).Error(), "sd": vlauth.Status(n).Desc(), "er": vlauth.Error(n).Error(), "ac": vlauth.AccessType(n).Type(), "pe": vlpersistence.Errors(n).Error()}
			if k := len(segs) - 1; k >= 0 {
				same := true
				for f, v := range x {
					same = same && segs[k][f] == v
				}
				if same {
					segs[k]["hi"] = n
					continue
				}
			}
			x["n"], x["hi"] = n, n
			segs = append(segs, x)
			if len(segs) > 200 {
				break
			}
		}
		r["segs"], r["n"] = segs, 0
		for _, k := range []string{"st", "sd", "er", "ac", "pe"} {
			r[k] = ""
		}
		for k, v := range fun("authc", c) {
			r[k] = v
		}
		return
	case "cfg":
		config(c, r)
	case "ids":
		sweepIDs(c, r)
	case "vals":
		sweepValues(c, r)
	case "clk":
		clocked(c, r)
	case "lps":
		sweepFields(r)
	case "exp":
		m := mqttp.NewPublish(5)
		if c.G == "set" || c.G == "abs" {
			now := time.Now()
			at := now.Add(time.Duration(c.S)*time.Second + time.Duration(c.Ns))
			if c.S > 9e9 || c.S < -9e9 || c.G == "abs" {
				at = time.Unix(c.S, c.Ns)
			}
			if c.Q == 1 {
				at = at.UTC()
			} else if c.Q == 2 {
				at = at.Round(0)
			}
			m.SetExpireAt(at)
			t0 := time.Now()
			got, left, ex := m.Expired()
			t1 := time.Now()
			r["has"] = true
			r["hi"], r["eq"] = delta(at, t0), got.Equal(at)
			r["lo"] = delta(at, t1)
			r["left"] = []int{int(left >> 16), int(left & 0xffff)}
			r["ex"] = ex
		} else {
			if c.G == "cleared" {
				m.SetExpireAt(time.Now().Add(-time.Hour))
				m.SetExpireAt(time.Time{})
			}
			got, left, ex := m.Expired()
			r["has"], r["hi"], r["lo"], r["eq"] = false, []int{0, 0, 0}, []int{0, 0, 0}, got.IsZero()
			r["left"], r["ex"] = []int{int(left >> 16), int(left & 0xffff)}, ex
		}
	}
	return r
}

// a - b as whole seconds rounded down, in units of 65536 s and s, and nanoseconds
func delta(a, b time.Time) []int {
	s := a.Unix() - b.Unix()
	ns := a.Nanosecond() - b.Nanosecond()
	// time.Sub prefers the monotonic clock when both have it
	if d := a.Sub(b); d != math.MaxInt64 && d != math.MinInt64 {
		s, ns = int64(d/time.Second), int(d%time.Second)
	}
	if ns < 0 {
		ns += 1e9
		s--
	}
	hi := s >> 16
	if hi > math.MaxInt32 {
		hi = math.MaxInt32
	}
	if hi < -math.MaxInt32 {
		hi = -math.MaxInt32
	}
	return []int{int(hi), int(s & 0xffff), ns}
}

func nz(b B) B {
	if b == nil {
		return B{}
	}
	return b
}

func topicRes(t *mqttp.Topic, err error) ev {
	if err != nil || t == nil {
		return ev{"ok": err == nil, "x": ev{"f": B{}, "r": B{}, "s": B{}, "d": B{}, "o": -1}}
	}
	return ev{"ok": true, "x": topic(t)}
}

type named string

// keys that are no strings, some look like one
var otherKeys = map[string]interface{}{
	"int0": 0, "int-1": -1, "int7": 7, "int8": int8(1), "int64": int64(1), "uint": uint(0), "uint8": uint8('a'), "uint32": uint32(3), "rune": 'a',
	"float0": 0.0, "float32": float32(1), "complex": complex(1, 2), "true": true, "false": false, "byte1": [1]byte{'a'}, "byte0": [0]byte{},
	"bytes": [4]byte{'k', 'e', 'y', 0}, "empty": struct{}{}, "structs": struct{ S string }{"a"}, "named": named("a"), "named0": named(""),
	"error": errors.New("a"), "duration": time.Second, "pointer": new(string), "channel": make(chan string), "nilpointer": (*string)(nil),
	"type": mqttp.PUBLISH, "code": mqttp.CodeSuccess, "array": [1]interface{}{"a"}, "uintptr": uintptr(1), "time": time.Time{},
}

// cfgValue is the value with number n; 3 modulo 14 are nil
func cfgValue(n int) interface{} {
	switch n % 14 {
	case 1:
		return map[interface{}]interface{}{1: n}
	case 2:
		return map[string]interface{}{"x": n}
	case 3:
		return nil
	case 4:
		return map[interface{}]interface{}{"x": n}
	case 5:
		return []interface{}{map[interface{}]interface{}{"x": n}, nil}
	case 6:
		return fmt.Sprintf(" %d \n", n)
	case 7:
		return []byte(fmt.Sprint(n))
	case 8:
		return float64(n) + 0.5
	case 9:
		return &n
	case 10:
		return fmt.Sprintf("$HOME/%d", n)
	case 11:
		return map[string]interface{}{"y": map[interface{}]interface{}{"x": n, "z": nil}}
	case 12:
		return []string{fmt.Sprint(n), ""}
	case 13:
		return struct{ n int }{n}
	}
	return n
}

func config(c fcase, r ev) {
	type kv struct {
		k interface{}
		v interface{}
	}
	var ins []kv
	var num []int
	for _, e := range c.E {
		var k interface{}
		switch e.T {
		case "s":
			k = e.K
		case "i":
			k = len(e.K)
		case "b":
			k = len(e.K)%2 == 0
		case "n":
			k = nil
		case "f":
			k = float64(len(e.K)) + 0.5
		case "a":
			k = [1]string{e.K}
		case "p":
			k = &struct{ s string }{e.K}
		case "x":
			k = otherKeys[e.K]
		}
		ins = append(ins, kv{k, cfgValue(e.V)})
		num = append(num, e.V)
	}
	// the number of the value a key was given
	show := func(k, v interface{}) int {
		for i := len(ins) - 1; i >= 0; i-- {
			if ins[i].k == k && reflect.DeepEqual(v, cfgValue(num[i])) {
				if num[i]%14 == 3 {
					return 3
				}
				return num[i]
			}
		}
		return -1
	}
	var cfg interface{}
	sm := map[string]interface{}{}
	im := map[interface{}]interface{}{}
	switch c.G {
	case "sm":
		for _, x := range ins {
			if k, ok := x.k.(string); ok {
				sm[k] = x.v
			}
		}
		cfg = sm
	case "im":
		for _, x := range ins {
			im[x.k] = x.v
		}
		cfg = im
	case "smnil":
		cfg = map[string]interface{}(nil)
	case "imnil":
		cfg = map[interface{}]interface{}(nil)
	case "nil":
	case "int":
		cfg = 5
	case "str":
		cfg = "cfg"
	case "slice":
		cfg = []interface{}{map[string]interface{}{"a": 1}}
	case "ss":
		cfg = map[string]string{"a": "b"}
	case "si":
		cfg = map[string]int{"a": 1}
	case "is":
		cfg = map[int]interface{}{1: 2}
	case "psm":
		cfg = &sm
	case "pim":
		cfg = &im
	case "struct":
		cfg = struct{ A int }{1}
	case "bool":
		cfg = true
	case "bytes":
		cfg = []byte("a: b")
	case "ifs":
		cfg = map[interface{}]string{"a": "b"}
	}
	n0, m0 := len(sm), len(im)
	res, err := vltypes.NormalizeConfig(cfg)
	r["g"] = c.G
	r["er"] = "ok"
	if err == vltypes.ErrInvalidConfigType {
		r["er"] = "type"
	} else if err != nil {
		r["er"] = "other"
	}
	r["nil"] = res == nil
	es := []ev{}
	for _, e := range c.E {
		es = append(es, ev{"t": e.T, "k": e.K, "v": func() int {
			if e.V%14 == 3 {
				return 3
			}
			return e.V
		}()})
	}
	r["e"] = es
	out := []ev{}
	for k, v := range res {
		out = append(out, ev{"k": k, "v": show(k, v)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i]["k"].(string) < out[j]["k"].(string) })
	r["out"] = out
	// the input is as before
	mod := n0 != len(sm) || m0 != len(im)
	for _, x := range ins {
		if c.G == "im" {
			if y, ok := im[x.k]; !ok || show(x.k, y) < 0 {
				mod = true
			}
		} else if c.G == "sm" {
			if k, ok := x.k.(string); ok {
				if y, ok := sm[k]; !ok || show(x.k, y) < 0 {
					mod = true
				}
			}
		}
	}
	r["mod"] = mod
	// a string map is returned itself
	same := false
	if c.G == "sm" && res != nil {
		sm["\x00probe"] = 77
		same = res["\x00probe"] == 77
	}
	r["same"] = same
}

func init() {
	tables["fun"] = func(r *runner, e op) {
		var cs []fcase
		check(json.Unmarshal(e.C, &cs))
		out := []ev{}
		for _, c := range cs {
			out = append(out, fun(e.G, c))
		}
		r.add(e, ev{"k": e.G, "c": out})
	}
}

// a history on a clock that is set by hand; c.S, c.Ns: time at which it starts, c.Q: kind of time
func clocked(c fcase, r ev) {
	asked := clock.Asked()
	defer func() { r["asked"] = clock.Asked() - asked }()
	base := time.Unix(c.S, c.Ns)
	plus := func(d []int64) time.Time {
		// not through a Duration, which ends after 292 years
		return time.Unix(c.S+d[0]*65536+d[1], c.Ns+d[2])
	}
	kind := func(t time.Time, q int) time.Time {
		switch q % 3 {
		case 1:
			return t.UTC()
		case 2:
			return t.In(time.FixedZone("x", -12345))
		}
		return t
	}
	clock.Set(kind(base, c.Q))
	defer clock.Run()
	now := []int64{0, 0, 0}
	var ms [4]*mqttp.Publish
	fresh := func(v int) *mqttp.Publish {
		m := mqttp.NewPublish(mqttp.ProtocolVersion(v))
		_ = m.Set("t", []byte("x"), mqttp.QoS0, false, false)
		return m
	}
	for i := range ms {
		ms[i] = fresh(3 + (c.N+i)%3)
	}
	out := []ev{}
	for _, e := range c.X {
		x := ev{"t": e.T, "o": e.O, "p": e.P}
		if e.S != nil {
			x["s"] = e.S
		}
		switch e.T {
		case "tick":
			n := now[2] + e.S[2]
			s := now[1] + e.S[1] + n/1e9
			now = []int64{now[0] + e.S[0] + s/65536, s % 65536, n % 1e9}
			clock.Set(kind(plus(now), c.Q))
		case "set":
			ms[e.O].SetExpireAt(kind(plus(e.S), e.V))
		case "clear":
			ms[e.O].SetExpireAt(time.Time{})
		case "new":
			ms[e.O] = fresh(e.V)
		case "clone":
			m, err := ms[e.O].Clone(mqttp.ProtocolVersion(e.V))
			x["ok"] = err == nil
			if err == nil {
				ms[e.P] = m
			}
		case "use":
			// calls that have nothing to do with it
			m := ms[e.O]
			switch e.V % 6 {
			case 0:
				_, _ = mqttp.Encode(m)
			case 1:
				m.SetPayload([]byte("other"))
			case 2:
				_ = m.SetTopic("u")
			case 3:
				_ = m.SetQoS(mqttp.QoS1)
				m.SetPacketID(7)
			case 4:
				m.SetRetain(true)
				_ = m.PropertySet(mqttp.PropertyPublicationExpiry, uint32(3))
			case 5:
				m.SetPublishID(9)
				m.PropertiesDiscard()
			}
		case "ask":
			at, left, ex := ms[e.O].Expired()
			x["ex"], x["left"] = ex, []int{int(left >> 16), int(left & 0xffff)}
			x["at"] = []int64{}
			if !at.IsZero() {
				d := at.Unix() - c.S
				n := int64(at.Nanosecond()) - c.Ns
				if n < 0 {
					n += 1e9
					d--
				}
				x["at"] = []int64{d >> 16, d & 0xffff, n}
			}
		}
		out = append(out, x)
	}
	r["x"] = out
}
