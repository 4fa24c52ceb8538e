//go:build go1.21

// Package sync has the locks of the standard package, with scheduling points.
package sync

import (
	"sync"

	"github.com/VolantMQ/vlapi/zzverif/shim/sched"
)

type Locker = sync.Locker
type Map = sync.Map
type Pool = sync.Pool
type WaitGroup = sync.WaitGroup

type Mutex struct{ m sync.Mutex }

func (m *Mutex) TryLock() bool { sched.Yield(); return m.m.TryLock() }
func (m *Mutex) Unlock()       { sched.Yield(); m.m.Unlock() }
func (m *Mutex) Lock() {
	sched.Yield()
	for !m.m.TryLock() {
		sched.Block()
	}
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) TryLock() bool  { sched.Yield(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { sched.Yield(); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { sched.Yield(); m.m.Unlock() }
func (m *RWMutex) RUnlock()       { sched.Yield(); m.m.RUnlock() }
func (m *RWMutex) Lock() {
	sched.Yield()
	for !m.m.TryLock() {
		sched.Block()
	}
}
func (m *RWMutex) RLock() {
	sched.Yield()
	for !m.m.TryRLock() {
		sched.Block()
	}
}
func (m *RWMutex) RLocker() Locker { return (*rl)(m) }

type rl RWMutex

func (r *rl) Lock()   { (*RWMutex)(r).RLock() }
func (r *rl) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := new(Once)
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond wakes waiters in the order they came.
type Cond struct {
	L    Locker
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.wait = append(c.wait, woken)
	c.L.Unlock()
	for !*woken {
		sched.Block()
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	sched.Yield()
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}

func (c *Cond) Broadcast() {
	sched.Yield()
	for _, w := range c.wait {
		*w = true
	}
	c.wait = nil
}
