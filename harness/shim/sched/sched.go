//go:build go1.21

// Package sched runs goroutines one at a time and lets a controller choose which one goes on at every scheduling point.
package sched

type thread struct {
	wake    chan struct{}
	blocked bool
	done    bool
	first   func() // runs when the thread goes on, before it touches anything
}

// Begin has f run just before the running thread touches anything that others see.
func Begin(f func()) {
	if cur < 0 {
		f()
		return
	}
	threads[cur].first = f
}

// Flush runs what Begin has put off.
func Flush() {
	if cur >= 0 {
		threads[cur].flush()
	}
}

func (t *thread) flush() {
	if f := t.first; f != nil {
		t.first = nil
		f()
	}
}

// Mute switches the scheduling points off for a moment.
var Mute bool

var (
	threads []*thread
	cur     = -1
	back    chan struct{}
)

// Yield is a scheduling point.
func Yield() { pause(false) }

// Block is a scheduling point of a thread that cannot go on now.
func Block() { pause(true) }

func pause(blocked bool) {
	if cur < 0 || Mute {
		if blocked {
			panic("blocked outside of a schedule")
		}
		return
	}
	t := threads[cur]
	t.blocked = blocked
	back <- struct{}{}
	<-t.wake
	t.flush()
}

// Read is a value with a scheduling point after it.
func Read[T any](v T) T {
	Flush()
	Yield()
	return v
}

// Run executes the functions; choose gets the threads that can go on and the one that ran last (-1: none, or it has
// ended or blocked) and returns one of them. It gives false when no thread can go on or the steps run out.
func Run(fs []func(), choose func(can []int, last int) int, max int) bool {
	threads = nil
	back = make(chan struct{})
	for range fs {
		threads = append(threads, &thread{wake: make(chan struct{})})
	}
	for i, f := range fs {
		t, f := threads[i], f
		go func() {
			<-t.wake
			f()
			t.done = true
			back <- struct{}{}
		}()
	}
	last := -1
	for n := 0; ; n++ {
		var can, blocked []int
		alive := false
		for i, t := range threads {
			if !t.done {
				alive = true
				if t.blocked {
					blocked = append(blocked, i)
				} else {
					can = append(can, i)
				}
			}
		}
		if !alive {
			cur = -1
			return true
		}
		if len(can) == 0 {
			can = blocked
		}
		if n > max {
			cur = -1
			return false
		}
		if last >= 0 && (threads[last].done || threads[last].blocked) {
			last = -1
		}
		c := choose(can, last)
		cur = c
		last = c
		threads[c].blocked = false
		threads[c].wake <- struct{}{}
		<-back
		if !threads[c].blocked { // something has happened: whoever waited may try again
			for _, t := range threads {
				t.blocked = false
			}
		}
	}
}
