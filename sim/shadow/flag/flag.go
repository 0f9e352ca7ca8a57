// Package flag shadows the standard package: the flags are those of the simulated test binary.
package flag

import (
	rf "flag"
	"io"
	"time"
)

type (
	Flag          = rf.Flag
	FlagSet       = rf.FlagSet
	Value         = rf.Value
	Getter        = rf.Getter
	ErrorHandling = rf.ErrorHandling
)

const (
	ContinueOnError = rf.ContinueOnError
	ExitOnError     = rf.ExitOnError
	PanicOnError    = rf.PanicOnError
)

var (
	ErrHelp     = rf.ErrHelp
	CommandLine = NewFlagSet("pkg.test", ContinueOnError)
)

// SimSet installs the flags of a new simulated process.
func SimSet(vals map[string]string) {
	fs := rf.NewFlagSet("pkg.test", rf.ContinueOnError)
	fs.SetOutput(io.Discard)
	fs.String("test.run", "", "")
	fs.String("test.skip", "", "")
	fs.String("test.bench", "", "")
	fs.String("test.list", "", "")
	fs.String("test.cpu", "", "")
	fs.String("test.shuffle", "off", "")
	fs.String("test.fuzz", "", "")
	fs.String("test.coverprofile", "", "")
	fs.Uint("test.count", 1, "")
	fs.Int("test.parallel", 8, "")
	fs.Bool("test.v", false, "")
	fs.Bool("test.short", false, "")
	fs.Bool("test.failfast", false, "")
	fs.Duration("test.timeout", 10*time.Minute, "")
	for k, v := range vals {
		if err := fs.Set(k, v); err != nil {
			panic(err)
		}
	}
	CommandLine = fs
}

func NewFlagSet(n string, e ErrorHandling) *FlagSet { return rf.NewFlagSet(n, e) }
func Lookup(n string) *Flag                         { return CommandLine.Lookup(n) }
func Set(n, v string) error                         { return CommandLine.Set(n, v) }
func Parse()                                        {}
func Parsed() bool                                  { return true }
func Args() []string                                { return nil }
func Arg(int) string                                { return "" }
func NArg() int                                     { return 0 }
func NFlag() int                                    { return 0 }
func VisitAll(f func(*Flag))                        { CommandLine.VisitAll(f) }
func Visit(f func(*Flag))                           { CommandLine.Visit(f) }
func Bool(n string, v bool, u string) *bool         { return &v }
func String(n, v, u string) *string                 { return &v }
func Int(n string, v int, u string) *int            { return &v }
func BoolVar(p *bool, n string, v bool, u string)   { *p = v }
func StringVar(p *string, n, v, u string)           { *p = v }
func IntVar(p *int, n string, v int, u string)      { *p = v }
