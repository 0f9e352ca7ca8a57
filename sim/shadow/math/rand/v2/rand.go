package rand

import (
	rr "math/rand/v2"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

type (
	Rand   = rr.Rand
	Source = rr.Source
)

func New(s Source) *Rand { return rr.New(s) }
func Uint64() uint64     { return simrt.RandU64() }
func Uint32() uint32     { return uint32(simrt.RandU64()) }
func Int64() int64       { return int64(simrt.RandU64() >> 1) }
func Int() int           { return int(simrt.RandU64() >> 1) }
func IntN(n int) int     { return int(simrt.RandU64() % uint64(n)) }
func N[I ~int | ~int64 | ~uint64](n I) I {
	return I(simrt.RandU64() % uint64(n))
}
func Float64() float64 { return float64(simrt.RandU64()>>11) / (1 << 53) }
func Perm(n int) []int { return rr.New(rr.NewPCG(simrt.RandU64(), 1)).Perm(n) }
func Shuffle(n int, f func(i, j int)) {
	rr.New(rr.NewPCG(simrt.RandU64(), 1)).Shuffle(n, f)
}
