package log

import (
	"fmt"
	"io"
	rl "log"

	"github.com/gkampitakis/go-snaps/verifsim/shadow/os"
)

type Logger = rl.Logger

const (
	LstdFlags  = rl.LstdFlags
	Lshortfile = rl.Lshortfile
	Lmsgprefix = rl.Lmsgprefix
)

func out(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	io.WriteString(os.Stderr, s)
}
func Print(a ...any)                           { out(fmt.Sprint(a...)) }
func Println(a ...any)                         { out(fmt.Sprintln(a...)) }
func Printf(f string, a ...any)                { out(fmt.Sprintf(f, a...)) }
func Fatal(a ...any)                           { out(fmt.Sprint(a...)); os.Exit(1) }
func Fatalln(a ...any)                         { out(fmt.Sprintln(a...)); os.Exit(1) }
func Fatalf(f string, a ...any)                { out(fmt.Sprintf(f, a...)); os.Exit(1) }
func Panic(a ...any)                           { s := fmt.Sprint(a...); out(s); panic(s) }
func Panicf(f string, a ...any)                { s := fmt.Sprintf(f, a...); out(s); panic(s) }
func SetFlags(int)                             {}
func SetPrefix(string)                         {}
func SetOutput(io.Writer)                      {}
func New(w io.Writer, p string, f int) *Logger { return rl.New(w, p, f) }
func Default() *Logger                         { return rl.New(os.Stderr, "", 0) }
