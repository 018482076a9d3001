// Package rand is math/rand/v2 driven by the run.
package rand

import (
	real_ "math/rand/v2"

	"verif/simrt"
)

type src struct{}

func (src) Uint64() uint64 { return simrt.Rand64() }

var r = real_.New(src{})

func Int() int                        { return r.Int() }
func IntN(n int) int                  { return r.IntN(n) }
func Int32() int32                    { return r.Int32() }
func Int32N(n int32) int32            { return r.Int32N(n) }
func Int64() int64                    { return r.Int64() }
func Int64N(n int64) int64            { return r.Int64N(n) }
func Uint() uint                      { return r.Uint() }
func UintN(n uint) uint               { return r.UintN(n) }
func Uint32() uint32                  { return r.Uint32() }
func Uint32N(n uint32) uint32         { return r.Uint32N(n) }
func Uint64() uint64                  { return r.Uint64() }
func Uint64N(n uint64) uint64         { return r.Uint64N(n) }
func Float32() float32                { return r.Float32() }
func Float64() float64                { return r.Float64() }
func NormFloat64() float64            { return r.NormFloat64() }
func ExpFloat64() float64             { return r.ExpFloat64() }
func Perm(n int) []int                { return r.Perm(n) }
func Shuffle(n int, f func(i, j int)) { r.Shuffle(n, f) }

// N is rand.N.
func N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n I) I {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return I(r.Uint64N(uint64(n)))
}
