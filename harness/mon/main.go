// Command mon runs histories of counter calls on the real vlmonitoring code under chosen schedules and records them.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"sync"
	"time"

	vm "github.com/VolantMQ/vlapi/vlmonitoring"
	"github.com/VolantMQ/vlapi/zzverif/shim/sched"
)

// Limbs is a uint64 as four 16 bit digits.
type Limbs [4]int

func limbs(v uint64) Limbs {
	return Limbs{int(v >> 48), int(v >> 32 & 0xffff), int(v >> 16 & 0xffff), int(v & 0xffff)}
}
func (l Limbs) val() uint64 {
	return uint64(l[0])<<48 | uint64(l[1])<<32 | uint64(l[2])<<16 | uint64(l[3])
}

// Call is one call: op, and its amount.
type Call struct {
	Op string `json:"op"`
	N  Limbs  `json:"n"`
}

// Scenario is what threads do after the prologue and before the epilogue.
type Scenario struct {
	Pre     []Call   `json:"pre"`
	Threads [][]Call `json:"threads"`
	Post    []Call   `json:"post"`
	Bound   int      `json:"bound"` // preemptions, -1: any
	Max     int      `json:"max"`   // schedules
	Seed    int64    `json:"seed"`
	Real    int      `json:"real"` // repetitions with real goroutines
	Bulk    int      `json:"bulk"` // goroutines each making Max calls
	Mode    string   `json:"mode"`
	Order   []int    `json:"order"` // with mode "given": which thread takes the next step; with "against": steps, calls, steps
}

// Event is the beginning or end of a call.
type Event struct {
	K  string  `json:"k"`
	T  int     `json:"t"`
	Op string  `json:"op"`
	N  Limbs   `json:"n"`
	R  []Limbs `json:"r"`
}

type history []Event

// world is a fresh set of counters.
type world struct {
	st    *vm.Stats
	sched bool
	snap  []*vm.Stats // per thread
	ls    []uint64    // destination of LoadStore per thread
	src   uint64
	mu    sync.Mutex
	h     history
	open  []int
}

func newWorld(n int) *world {
	w := &world{st: &vm.Stats{}, open: make([]int, n+1), ls: make([]uint64, n+1)}
	for i := 0; i <= n; i++ {
		w.snap = append(w.snap, &vm.Stats{})
	}
	return w
}

// quiet: reading a private copy is no scheduling point
func quiet(w *world) func() {
	if !w.sched {
		return func() {}
	}
	sched.Mute = true
	return func() { sched.Mute = false }
}

func do(w *world, th int, c Call) (r []Limbs) {
	n := c.N.val()
	s, p := w.st, w.snap[th]
	ctr, flow, max := &s.Packets.Connect, &s.Packets.Publish, &s.Clients.Connected
	switch c.Op {
	case "add":
		return []Limbs{limbs(ctr.AddU64(n))}
	case "get":
		return []Limbs{limbs(ctr.Get())}
	case "load":
		return []Limbs{limbs(ctr.Load())}
	case "diff":
		d := ctr.Diff(&p.Packets.Connect)
		defer quiet(w)()
		return []Limbs{limbs(d.Load()), limbs(p.Packets.Connect.Load())}
	case "sadd":
		return []Limbs{limbs(flow.SentAddU64(n))}
	case "radd":
		return []Limbs{limbs(flow.RecvAddU64(n))}
	case "sget":
		return []Limbs{limbs(flow.Sent.Get())}
	case "rget":
		return []Limbs{limbs(flow.Recv.Load())}
	case "fdiff":
		d := flow.Diff(&p.Packets.Publish)
		defer quiet(w)()
		return []Limbs{limbs(d.Sent.Load()), limbs(d.Recv.Load()), limbs(p.Packets.Publish.Sent.Load()), limbs(p.Packets.Publish.Recv.Load())}
	case "ls": // LoadStore of the maximum's own memory is not reachable: it has its own source
		d := vm.LoadStore(&w.src, &w.ls[th])
		return []Limbs{limbs(d), limbs(w.ls[th])}
	case "lset": // only in prologues and by one thread
		w.src = n
		return nil
	case "madd":
		max.AddU64(n)
		return nil
	case "msub":
		max.SubU64(n)
		return nil
	case "mload":
		m := max.Load()
		defer quiet(w)()
		return []Limbs{limbs(m.Get()), limbs(m.Max)}
	case "mget":
		return []Limbs{limbs(max.Get())}
	}
	panic("unknown call " + c.Op)
}

func (w *world) run(th int, c Call) {
	var i int
	begin := func() {
		w.mu.Lock()
		i = len(w.h)
		w.h = append(w.h, Event{K: "inv", T: th, Op: c.Op, N: c.N, R: []Limbs{}})
		w.mu.Unlock()
	}
	if w.sched {
		sched.Begin(begin)
	} else {
		begin()
	}
	r := do(w, th, c)
	if r == nil {
		r = []Limbs{}
	}
	if w.sched {
		sched.Flush()
	}
	w.mu.Lock()
	w.h[i].R = r
	w.h = append(w.h, Event{K: "ret", T: th, Op: c.Op, N: c.N, R: r})
	w.mu.Unlock()
}

// returned is the number of calls thread th has finished
func (w *world) returned(th int) (n int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, e := range w.h {
		if e.K == "ret" && e.T == th {
			n++
		}
	}
	return n
}

func key(h history) uint64 {
	f := fnv.New64a()
	b, _ := json.Marshal(h)
	_, _ = f.Write(b)
	return f.Sum64()
}

type result struct {
	ID    int       `json:"id"`
	Hist  []history `json:"hist"`
	Bulk  []bulk    `json:"bulk"`
	Sched int       `json:"sched"`
	Full  bool      `json:"full"`
	Hang  bool      `json:"hang"`
}

// bulk is what many additions by real goroutines gave: amount and result of each, sorted by result.
type bulk struct {
	Op    string     `json:"op"`
	Adds  [][2]Limbs `json:"adds"`
	Diffs []Limbs    `json:"diffs"`
	Total Limbs      `json:"total"`
	Other Limbs      `json:"other"`
	Max   Limbs      `json:"max"`
	Load  []Limbs    `json:"load"`
}

// explore tries all schedules within the bounds, depth first, or random ones.
func explore(s Scenario, res *result) {
	seen := map[uint64]bool{}
	rnd := rand.New(rand.NewSource(s.Seed))
	type point struct {
		can  []int
		last int
		pick int // index into order
		pre  int // preemptions before this point
	}
	order := func(p point) []int { // the running thread first
		var o []int
		for _, c := range p.can {
			if c == p.last {
				o = append(o, c)
			}
		}
		for _, c := range p.can {
			if c != p.last {
				o = append(o, c)
			}
		}
		return o
	}
	var stack []point
	bound := 0
	if s.Bound < 0 {
		bound = -1
	}
	left := s.Max / max1(s.Bound+1) // so that every bound gets its share
	if s.Bound < 0 {
		left = s.Max
	}
	for {
		w := newWorld(len(s.Threads))
		w.sched = true
		for _, c := range s.Pre {
			w.run(0, c)
		}
		var fs []func()
		for i := range s.Threads {
			i := i
			fs = append(fs, func() {
				for _, c := range s.Threads[i] {
					w.run(i+1, c)
				}
			})
		}
		depth, pre := 0, 0
		next, begun := 0, map[int]bool{}
		quota, want := 0, 0
		if s.Mode == "against" {
			quota, want = s.Order[0], s.Order[1]
		}
		ok := sched.Run(fs, func(can []int, last int) int {
			if s.Mode == "given" {
				for next < len(s.Order) {
					c := s.Order[next] - 1
					for _, x := range can {
						if x == c {
							if begun[c] {
								next++
							}
							begun[c] = true
							return c
						}
					}
					next++
				}
				return can[0]
			}
			if s.Mode == "against" {
				// the first thread takes Order[0] steps, the second makes Order[1] calls, from
				// then on each Order[2] steps of the first stand against a call of the second
				first, second := -1, -1
				for i, x := range can {
					if x == 0 {
						first = i
					} else if x == 1 {
						second = i
					}
				}
				if second >= 0 && (quota == 0 || first < 0) {
					if w.returned(2) < want {
						return 1
					}
					quota = s.Order[2]
					want++
				}
				if first >= 0 {
					if quota > 0 {
						quota--
					}
					return 0
				}
				return can[0]
			}
			if s.Mode == "random" {
				c := can[rnd.Intn(len(can))]
				if last >= 0 && rnd.Intn(3) > 0 {
					for _, x := range can {
						if x == last {
							c = x
						}
					}
				}
				return c
			}
			if depth == len(stack) {
				stack = append(stack, point{can: can, last: last, pre: pre})
			}
			p := stack[depth]
			c := order(p)[p.pick]
			if p.last >= 0 && c != p.last {
				pre++
			}
			depth++
			return c
		}, 20000)
		res.Sched++
		if !ok {
			res.Hang = true
			res.Hist = append(res.Hist, w.h)
			return
		}
		stack = stack[:min(depth, len(stack))]
		for _, c := range s.Post {
			w.run(0, c)
		}
		if k := key(w.h); !seen[k] {
			seen[k] = true
			res.Hist = append(res.Hist, w.h)
		}
		left--
		if s.Mode != "" {
			if res.Sched >= s.Max {
				return
			}
			continue
		}
		for len(stack) > 0 {
			p := &stack[len(stack)-1]
			p.pick++
			preemptive := p.last >= 0
			if p.pick < len(p.can) && (!preemptive || bound < 0 || p.pre < bound) {
				break
			}
			stack = stack[:len(stack)-1]
		}
		if len(stack) == 0 || left <= 0 {
			full := len(stack) == 0
			if bound == s.Bound {
				res.Full = full
				return
			}
			bound++
			stack = stack[:0]
			if left < 0 {
				left = 0
			}
			left += (s.Max - res.Sched) / (s.Bound - bound + 1)
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// real runs the threads as goroutines.
func real(s Scenario, res *result) {
	seen := map[uint64]bool{}
	for k := 0; k < s.Real; k++ {
		w := newWorld(len(s.Threads))
		for _, c := range s.Pre {
			w.run(0, c)
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range s.Threads {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for _, c := range s.Threads[i] {
					w.run(i+1, c)
				}
			}(i)
		}
		close(start)
		wg.Wait()
		for _, c := range s.Post {
			w.run(0, c)
		}
		res.Sched++
		if k := key(w.h); !seen[k] {
			seen[k] = true
			res.Hist = append(res.Hist, w.h)
		}
	}
}

// heavy has many goroutines add as fast as they can.
func heavy(s Scenario, res *result) {
	for _, op := range []string{"add", "sadd", "radd", "madd", "mmix"} {
		w := newWorld(s.Bulk)
		var wg sync.WaitGroup
		start := make(chan struct{})
		out := make([][][2]Limbs, s.Bulk)
		for i := 0; i < s.Bulk; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				rnd := rand.New(rand.NewSource(s.Seed + int64(i)))
				<-start
				for k := 0; k < s.Max; k++ {
					n := limbs(uint64(rnd.Intn(3) + 1))
					if op == "madd" || op == "mmix" {
						do(w, i, Call{"madd", n})
						if op == "mmix" && rnd.Intn(2) == 0 {
							do(w, i, Call{"msub", n})
							n = limbs(0)
						}
						out[i] = append(out[i], [2]Limbs{n, limbs(0)})
						continue
					}
					out[i] = append(out[i], [2]Limbs{n, do(w, i, Call{op, n})[0]})
					if rnd.Intn(8) == 0 {
						runtime.Gosched()
					}
				}
			}(i)
		}
		b := bulk{Op: op, Adds: [][2]Limbs{}, Diffs: []Limbs{}, Load: []Limbs{}}
		stop := make(chan struct{})
		fin := make(chan struct{})
		take := func() {
			switch op {
			case "add":
				b.Diffs = append(b.Diffs, do(w, s.Bulk, Call{Op: "diff"})[0])
				do(w, s.Bulk, Call{Op: "get"})
				do(w, s.Bulk, Call{Op: "load"})
			case "sadd":
				b.Diffs = append(b.Diffs, do(w, s.Bulk, Call{Op: "fdiff"})[0])
			case "radd":
				b.Diffs = append(b.Diffs, do(w, s.Bulk, Call{Op: "fdiff"})[1])
			default:
				b.Load = append(b.Load, do(w, s.Bulk, Call{Op: "mload"})[1])
				do(w, s.Bulk, Call{Op: "mget"})
			}
		}
		go func() {
			<-start
			for k := 0; k < 200; k++ {
				select {
				case <-stop:
					close(fin)
					return
				default:
					take()
				}
				runtime.Gosched()
			}
			close(fin)
		}()
		close(start)
		wg.Wait()
		close(stop)
		<-fin
		take()
		for _, o := range out {
			b.Adds = append(b.Adds, o...)
		}
		sort.Slice(b.Adds, func(i, j int) bool { return b.Adds[i][1].val() < b.Adds[j][1].val() })
		switch op {
		case "add":
			b.Total = do(w, 0, Call{Op: "get"})[0]
		case "sadd":
			b.Total, b.Other = do(w, 0, Call{Op: "sget"})[0], do(w, 0, Call{Op: "rget"})[0]
		case "radd":
			b.Total, b.Other = do(w, 0, Call{Op: "rget"})[0], do(w, 0, Call{Op: "sget"})[0]
		default:
			r := do(w, 0, Call{Op: "mload"})
			b.Total, b.Max = r[0], r[1]
		}
		res.Bulk = append(res.Bulk, b)
		res.Sched++
	}
}

func main() {
	in := flag.String("in", "", "")
	out := flag.String("out", "", "")
	flag.Parse()
	f, err := os.Open(*in)
	if err != nil {
		panic(err)
	}
	o, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	wr := bufio.NewWriter(o)
	d := json.NewDecoder(bufio.NewReader(f))
	id := 0
	for d.More() {
		var s Scenario
		if err = d.Decode(&s); err != nil {
			panic(err)
		}
		res := &result{ID: id, Hist: []history{}, Bulk: []bulk{}}
		id++
		done := make(chan struct{})
		go func() {
			select {
			case <-done:
			case <-time.After(120 * time.Second):
				fmt.Fprintln(os.Stderr, "calls do not return")
				os.Exit(7)
			}
		}()
		if s.Bulk > 0 {
			heavy(s, res)
		} else if s.Real > 0 {
			real(s, res)
		} else {
			explore(s, res)
		}
		close(done)
		b, _ := json.Marshal(res)
		_, _ = wr.Write(append(b, '\n'))
		_ = wr.Flush()
	}
	_ = o.Close()
}

func max1(a int) int {
	if a < 1 {
		return 1
	}
	return a
}
