package simrt

import "reflect"

// Channels of the code under test stay real channels (the race detector sees genuine edges), but a
// task only touches one after the kernel has found that it will not block. An unbuffered channel is
// made with room for one value, and its sender waits until that value has been received.
type chanState struct {
	c      any // keeps the address in use
	sync   bool
	closed bool
	sent   int
	recvd  int
	wait   int // receivers parked
}

var chans map[uintptr]*chanState

//go:noinline
func chanOf(v reflect.Value) *chanState {
	if v.IsNil() {
		return nil
	}
	return chans[v.Pointer()]
}

// MkChan is make(C, n).
func MkChan[C any](n int) C {
	var z C
	return mkChan(reflect.TypeOf(z), n).(C)
}

//go:noinline
func mkChan(t reflect.Type, n int) any {
	c := reflect.MakeChan(t, max(n, 1))
	reg := func() {
		if chans == nil {
			chans = map[uintptr]*chanState{}
		}
		chans[c.Pointer()] = &chanState{c: c.Interface(), sync: n == 0}
	}
	if K == nil {
		reg()
	} else {
		do1("mkchan", "", reg)
	}
	return c.Interface()
}

// R waits until a receive from c will not block.
func R[C any](c C) C {
	Select(false, CR(c))
	return D(c)
}

// D is c, or a closed channel for a task that is being killed.
func D[C any](c C) C {
	if Dead() {
		return deadChan(reflect.TypeOf(c)).(C)
	}
	return c
}

//go:noinline
func deadChan(t reflect.Type) any {
	c := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t.Elem()), 0)
	c.Close()
	return c.Convert(t).Interface()
}

// RS waits until a send to c will not block; false: the task is being killed.
func RS[C any](c C) bool { return readySend(reflect.ValueOf(c)) }

//go:noinline
func readySend(v reflect.Value) bool {
	do("send", "", func() bool {
		s := chanOf(v)
		return !v.IsNil() && (v.Len() < v.Cap() || s != nil && s.closed)
	}, func() bool {
		if s := chanOf(v); s != nil {
			s.sent++
			K.cur.sendNo = s.sent
		}
		return true
	})
	return !Dead()
}

// Sent ends a send: on an unbuffered channel, when the value has been received.
func Sent[C any](c C) { sent(reflect.ValueOf(c)) }

//go:noinline
func sent(v reflect.Value) {
	if K == nil {
		return
	}
	n := K.cur.sendNo
	do("rendezvous", "", func() bool {
		s := chanOf(v)
		return s == nil || !s.sync || s.recvd >= n || s.closed
	}, nil)
}

// Close is close(c).
func Close[C any](c C) { closeChan(reflect.ValueOf(c)) }

//go:noinline
func closeChan(v reflect.Value) {
	if Dead() {
		return
	}
	v.Close()
	mark := func() {
		if s := chanOf(v); s != nil {
			s.closed = true
		}
	}
	if K == nil {
		mark()
	} else {
		do1("close", "", mark)
	}
}

// SelCase is one arm of a select statement.
type SelCase struct {
	v    reflect.Value
	send bool
}

func CR[C any](c C) SelCase { return SelCase{v: reflect.ValueOf(c)} }
func CS[C any](c C) SelCase { return SelCase{v: reflect.ValueOf(c), send: true} }

func (c SelCase) ready() bool {
	if c.v.IsNil() {
		return false
	}
	s := chanOf(c.v)
	if s != nil && s.closed {
		return true
	}
	if !c.send {
		return c.v.Len() > 0
	}
	if s != nil && s.sync {
		return c.v.Len() == 0 && s.wait > 0
	}
	return c.v.Len() < c.v.Cap()
}

// Select picks an arm that will not block; -1 is the default arm.
//
//go:noinline
func Select(def bool, cs ...SelCase) int {
	got := -1
	in := false
	count := func(d int) {
		for _, c := range cs {
			if s := chanOf(c.v); s != nil && !c.send {
				s.wait += d
			}
		}
	}
	ready := func() bool {
		if !in && !def {
			in = true
			count(1)
		}
		for _, c := range cs {
			if c.ready() {
				return true
			}
		}
		return def
	}
	ok := do("select", "", ready, func() bool {
		if in {
			count(-1)
		}
		var can []int
		for i, c := range cs {
			if c.ready() || (in && c.send && c.v.IsValid() && !c.v.IsNil() && c.v.Len() < c.v.Cap()) {
				can = append(can, i)
			}
		}
		if len(can) == 0 {
			return true
		}
		got = can[0]
		if len(can) > 1 {
			got = can[K.mapRng.Intn(len(can))]
		}
		c := cs[got]
		if s := chanOf(c.v); s != nil && c.send {
			s.sent++
		} else if s != nil && c.v.Len() > 0 {
			s.recvd++
		}
		return true
	})
	if !ok && !def {
		return 0
	}
	return got
}
