// Package fmt shadows the standard package: printing goes to the simulated stdout.
package fmt

import (
	rf "fmt"
	"io"

	"github.com/gkampitakis/go-snaps/verifsim/shadow/os"
)

type (
	Formatter  = rf.Formatter
	GoStringer = rf.GoStringer
	Stringer   = rf.Stringer
	State      = rf.State
	Scanner    = rf.Scanner
	ScanState  = rf.ScanState
)

func Print(a ...any) (int, error)                 { return io.WriteString(os.Stdout, rf.Sprint(a...)) }
func Println(a ...any) (int, error)               { return io.WriteString(os.Stdout, rf.Sprintln(a...)) }
func Printf(f string, a ...any) (int, error)      { return io.WriteString(os.Stdout, rf.Sprintf(f, a...)) }
func Sprint(a ...any) string                      { return rf.Sprint(a...) }
func Sprintln(a ...any) string                    { return rf.Sprintln(a...) }
func Sprintf(f string, a ...any) string           { return rf.Sprintf(f, a...) }
func Fprint(w io.Writer, a ...any) (int, error)   { return rf.Fprint(w, a...) }
func Fprintln(w io.Writer, a ...any) (int, error) { return rf.Fprintln(w, a...) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) {
	return rf.Fprintf(w, f, a...)
}
func Append(b []byte, a ...any) []byte            { return rf.Append(b, a...) }
func Appendln(b []byte, a ...any) []byte          { return rf.Appendln(b, a...) }
func Appendf(b []byte, f string, a ...any) []byte { return rf.Appendf(b, f, a...) }
func Errorf(f string, a ...any) error             { return rf.Errorf(f, a...) }
func Sscan(s string, a ...any) (int, error)       { return rf.Sscan(s, a...) }
func Sscanln(s string, a ...any) (int, error)     { return rf.Sscanln(s, a...) }
func Sscanf(s, f string, a ...any) (int, error)   { return rf.Sscanf(s, f, a...) }
func Fscan(r io.Reader, a ...any) (int, error)    { return rf.Fscan(r, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)  { return rf.Fscanln(r, a...) }
func Fscanf(r io.Reader, f string, a ...any) (int, error) {
	return rf.Fscanf(r, f, a...)
}
func FormatString(s State, v rune) string { return rf.FormatString(s, v) }
