// Package rand stands in for math/rand under simulation.
package rand

import (
	real "math/rand"

	"github.com/jcorbin/anansi/zz/sim"
)

type src struct{}

func (src) Int63() int64 {
	if sim.S == nil {
		return 4
	}
	return int64(sim.S.C.Choose(1<<31))<<31 | int64(sim.S.C.Choose(1<<31))
}
func (src) Seed(int64) {}

var g = real.New(src{})

// Seed does nothing.
func Seed(int64) {}

func Int() int                           { return g.Int() }
func Intn(n int) int                     { return g.Intn(n) }
func Int31() int32                       { return g.Int31() }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Int63() int64                       { return g.Int63() }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
