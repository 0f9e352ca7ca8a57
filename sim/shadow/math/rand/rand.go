package rand

import (
	rr "math/rand"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

type (
	Rand   = rr.Rand
	Source = rr.Source
)

func New(s Source) *Rand       { return rr.New(s) }
func NewSource(n int64) Source { return rr.NewSource(n) }
func Seed(int64)               {}
func Uint64() uint64           { return simrt.RandU64() }
func Uint32() uint32           { return uint32(simrt.RandU64()) }
func Int63() int64             { return int64(simrt.RandU64() >> 1) }
func Int31() int32             { return int32(simrt.RandU64() >> 33) }
func Int() int                 { return int(simrt.RandU64() >> 1) }
func Intn(n int) int           { return int(simrt.RandU64() % uint64(n)) }
func Int31n(n int32) int32     { return int32(simrt.RandU64() % uint64(n)) }
func Int63n(n int64) int64     { return int64(simrt.RandU64() % uint64(n)) }
func Float64() float64         { return float64(simrt.RandU64()>>11) / (1 << 53) }
func Perm(n int) []int         { return rr.New(rr.NewSource(int64(simrt.RandU64()))).Perm(n) }
func Shuffle(n int, f func(i, j int)) {
	rr.New(rr.NewSource(int64(simrt.RandU64()))).Shuffle(n, f)
}
