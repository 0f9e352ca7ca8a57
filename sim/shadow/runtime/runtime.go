// Package runtime shadows the standard package: stack frames of the simulated source tree are
// reported as the Go toolchain would report them, with or without -trimpath.
package runtime

import (
	rt "runtime"
	"strings"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

const (
	GOOS     = rt.GOOS
	GOARCH   = rt.GOARCH
	Compiler = rt.Compiler
)

type (
	Error              = rt.Error
	MemStats           = rt.MemStats
	TypeAssertionError = rt.TypeAssertionError
)

func file(f string) string {
	if strings.HasSuffix(f, "/verifsim/stest/stest.go") {
		if simrt.Trimpath() {
			return "testing/testing.go"
		}
		return "/usr/local/go/src/testing/testing.go"
	}
	if simrt.Trimpath() {
		if !strings.HasPrefix(f, "/sim/") {
			return f
		}
		if strings.HasPrefix(f, "/sim/modcache/") {
			return strings.TrimPrefix(f, "/sim/modcache/")
		}
		if i := strings.Index(f, "/mod/"); i >= 0 {
			return "example.com" + f[i:]
		}
	}
	return f
}

func fn(n string) string {
	switch {
	case strings.HasSuffix(n, "/verifsim/stest.tRunner"):
		return "testing.tRunner"
	case strings.Contains(n, "/verifsim/stest."):
		return "testing." + n[strings.LastIndex(n, "/stest.")+7:]
	case strings.HasSuffix(n, "/verifsim/simrt.taskMain"):
		return "runtime.main"
	}
	return n
}

func Caller(skip int) (uintptr, string, int, bool) {
	pc, f, line, ok := rt.Caller(skip + 1)
	return pc, file(f), line, ok
}

func Callers(skip int, pc []uintptr) int {
	if skip > 0 {
		return rt.Callers(skip+1, pc)
	}
	return rt.Callers(1, pc)
}

type Func struct{ f *rt.Func }

func FuncForPC(pc uintptr) *Func {
	f := rt.FuncForPC(pc)
	if f == nil {
		return nil
	}
	return &Func{f}
}

func (f *Func) Name() string {
	if f == nil {
		return ""
	}
	return fn(f.f.Name())
}
func (f *Func) Entry() uintptr { return f.f.Entry() }
func (f *Func) FileLine(pc uintptr) (string, int) {
	a, b := f.f.FileLine(pc)
	return file(a), b
}

type Frame struct {
	PC       uintptr
	Func     *Func
	Function string
	File     string
	Line     int
	Entry    uintptr
}

type Frames struct{ f *rt.Frames }

func CallersFrames(pcs []uintptr) *Frames { return &Frames{rt.CallersFrames(pcs)} }

func (f *Frames) Next() (Frame, bool) {
	x, more := f.f.Next()
	fr := Frame{PC: x.PC, Function: fn(x.Function), File: file(x.File), Line: x.Line, Entry: x.Entry}
	if x.Func != nil {
		fr.Func = &Func{x.Func}
	}
	return fr, more
}

func GOROOT() string {
	if simrt.Trimpath() {
		return ""
	}
	return "/usr/local/go"
}
func Version() string                 { return rt.Version() }
func NumCPU() int                     { return 8 }
func GOMAXPROCS(int) int              { return 8 }
func NumGoroutine() int               { return 2 }
func Gosched()                        { simrt.Step("gosched", func() {}) }
func GC()                             {}
func KeepAlive(x any)                 { rt.KeepAlive(x) }
func SetFinalizer(obj, finalizer any) {}
func Goexit()                         { rt.Goexit() }
func Stack(buf []byte, all bool) int  { return rt.Stack(buf, false) }
func ReadMemStats(m *MemStats)        {}
func LockOSThread()                   {}
func UnlockOSThread()                 {}
