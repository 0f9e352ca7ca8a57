package debug

import (
	rd "runtime/debug"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

type (
	BuildInfo    = rd.BuildInfo
	BuildSetting = rd.BuildSetting
	Module       = rd.Module
)

// ReadBuildInfo reports the build settings of the simulated test binary.
func ReadBuildInfo() (*BuildInfo, bool) {
	b := &BuildInfo{GoVersion: "go1.24", Path: "example.com/mod/pkg.test", Main: Module{Path: "example.com/mod", Version: "(devel)"}}
	b.Settings = append(b.Settings, BuildSetting{Key: "-buildmode", Value: "exe"}, BuildSetting{Key: "-compiler", Value: "gc"})
	if simrt.Trimpath() {
		b.Settings = append(b.Settings, BuildSetting{Key: "-trimpath", Value: "true"})
	}
	b.Settings = append(b.Settings, BuildSetting{Key: "CGO_ENABLED", Value: "1"}, BuildSetting{Key: "GOARCH", Value: "amd64"}, BuildSetting{Key: "GOOS", Value: "linux"})
	return b, true
}

func Stack() []byte               { return rd.Stack() }
func PrintStack()                 {}
func SetGCPercent(p int) int      { return 100 }
func FreeOSMemory()               {}
func SetMaxStack(n int) int       { return n }
func SetPanicOnFault(b bool) bool { return false }
func SetTraceback(string)         {}
