// Package sync shadows the standard package with primitives scheduled by the simulator.
package sync

import (
	rsync "sync"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

type (
	Mutex     = simrt.Mutex
	RWMutex   = rwMutex
	WaitGroup = simrt.WaitGroup
	Locker    = rsync.Locker
)

type rwMutex struct{ simrt.RWMutex }

// RLocker returns a Locker implementing RLock/RUnlock.
func (m *rwMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker rwMutex

func (r *rlocker) Lock()   { (*rwMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*rwMutex)(r).RUnlock() }

type Cond struct {
	L Locker
	c simrt.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l, c: simrt.Cond{L: l}} }
func (c *Cond) Wait()        { c.c.L = c.L; c.c.Wait() }
func (c *Cond) Signal()      { c.c.Signal() }
func (c *Cond) Broadcast()   { c.c.Broadcast() }

type Once struct {
	m    simrt.Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Pool is deterministic: last in, first out.
type Pool struct {
	New func() any
	mu  rsync.Mutex
	s   []any
}

func (p *Pool) Get() any {
	p.mu.Lock()
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.s = append(p.s, x)
	p.mu.Unlock()
}

// Map is sync.Map with a Range order decided by the simulator's seed.
type Map struct{ rsync.Map }

func (m *Map) Range(f func(key, value any) bool) {
	keys := map[any]bool{}
	m.Map.Range(func(k, _ any) bool { keys[k] = true; return true })
	for _, e := range simrt.MapEntries(keys) {
		if v, ok := m.Load(e.K); ok && !f(e.K, v) {
			return
		}
	}
}
