package simrt

import "sync"

// Mutex is a simulated mutex. The kernel decides who gets it; the embedded real mutex is then
// taken uncontended, which gives the race detector the genuine happens-before edge.
type Mutex struct {
	held bool
	real sync.Mutex
}

//go:noinline
func (m *Mutex) Lock() {
	if K == nil {
		m.real.Lock()
		return
	}
	if do("lock", "", func() bool { return !m.held }, func() bool { m.held = true; return true }) {
		m.real.Lock()
	}
}

//go:noinline
func (m *Mutex) TryLock() bool {
	if K == nil {
		return m.real.TryLock()
	}
	ok := false
	do1("trylock", "", func() {
		if !m.held {
			m.held, ok = true, true
		}
	})
	if ok {
		m.real.Lock()
	}
	return ok
}

//go:noinline
func (m *Mutex) Unlock() {
	if K == nil {
		m.real.Unlock()
		return
	}
	if Dead() {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.real.Unlock()
	do1("unlock", "", func() { m.held = false })
}

// RWMutex follows sync.RWMutex: a waiting writer blocks new readers.
type RWMutex struct {
	writer  bool
	waiting int
	readers int
	real    sync.RWMutex
}

//go:noinline
func (m *RWMutex) Lock() {
	if K == nil {
		m.real.Lock()
		return
	}
	do1("wlock-announce", "", func() { m.waiting++ })
	if do("wlock", "", func() bool { return !m.writer && m.readers == 0 }, func() bool { m.writer = true; m.waiting--; return true }) {
		m.real.Lock()
	}
}

//go:noinline
func (m *RWMutex) TryLock() bool {
	ok := false
	do1("trywlock", "", func() {
		if !m.writer && m.readers == 0 {
			m.writer, ok = true, true
		}
	})
	if ok {
		m.real.Lock()
	}
	return ok
}

//go:noinline
func (m *RWMutex) Unlock() {
	if K == nil {
		m.real.Unlock()
		return
	}
	if Dead() {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.real.Unlock()
	do1("wunlock", "", func() { m.writer = false })
}

//go:noinline
func (m *RWMutex) RLock() {
	if K == nil {
		m.real.RLock()
		return
	}
	if do("rlock", "", func() bool { return !m.writer && m.waiting == 0 }, func() bool { m.readers++; return true }) {
		m.real.RLock()
	}
}

//go:noinline
func (m *RWMutex) TryRLock() bool {
	ok := false
	do1("tryrlock", "", func() {
		if !m.writer && m.waiting == 0 {
			m.readers++
			ok = true
		}
	})
	if ok {
		m.real.RLock()
	}
	return ok
}

//go:noinline
func (m *RWMutex) RUnlock() {
	if K == nil {
		m.real.RUnlock()
		return
	}
	if Dead() {
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.real.RUnlock()
	do1("runlock", "", func() { m.readers-- })
}

// WaitGroup.
type WaitGroup struct {
	n  int
	hb byte
}

//go:noinline
func (w *WaitGroup) Add(d int) {
	HBRelease(&w.hb)
	if K == nil {
		w.n += d
		return
	}
	do1("wg-add", "", func() { w.n += d })
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:noinline
func (w *WaitGroup) Wait() {
	if K != nil {
		do("wg-wait", "", func() bool { return w.n <= 0 }, nil)
	}
	HBAcquire(&w.hb)
}

// Go runs f in a new task.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Cond.
type Cond struct {
	L    sync.Locker
	seq  int
	wake int
	hb   byte
}

//go:noinline
func (c *Cond) Wait() {
	my := 0
	do1("cond-enqueue", "", func() { c.seq++; my = c.seq })
	c.L.Unlock()
	do("cond-wait", "", func() bool { return c.wake >= my }, nil)
	HBAcquire(&c.hb)
	c.L.Lock()
}

//go:noinline
func (c *Cond) Signal() {
	HBRelease(&c.hb)
	do1("cond-signal", "", func() {
		if c.wake < c.seq {
			c.wake++
		}
	})
}

//go:noinline
func (c *Cond) Broadcast() {
	HBRelease(&c.hb)
	do1("cond-broadcast", "", func() { c.wake = c.seq })
}
