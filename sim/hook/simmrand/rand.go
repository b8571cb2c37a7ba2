// Package rand stands in for math/rand in instrumented code, should any appear: the global source is seeded with a
// constant by the simulator at the start of every run.
package rand

import mr "math/rand"

type (
	Rand     = mr.Rand
	Source   = mr.Source
	Source64 = mr.Source64
	Zipf     = mr.Zipf
)

var g = mr.New(mr.NewSource(1))

// Reset restarts the global source.
func Reset(seed int64) { g = mr.New(mr.NewSource(seed)) }

func New(s Source) *Rand                                       { return mr.New(s) }
func NewSource(seed int64) Source                              { return mr.NewSource(seed) }
func NewZipf(r *Rand, s float64, v float64, imax uint64) *Zipf { return mr.NewZipf(r, s, v, imax) }
func Seed(seed int64)                                          { g.Seed(seed) }
func Int() int                                                 { return g.Int() }
func Intn(n int) int                                           { return g.Intn(n) }
func Int31() int32                                             { return g.Int31() }
func Int31n(n int32) int32                                     { return g.Int31n(n) }
func Int63() int64                                             { return g.Int63() }
func Int63n(n int64) int64                                     { return g.Int63n(n) }
func Uint32() uint32                                           { return g.Uint32() }
func Uint64() uint64                                           { return g.Uint64() }
func Float32() float32                                         { return g.Float32() }
func Float64() float64                                         { return g.Float64() }
func NormFloat64() float64                                     { return g.NormFloat64() }
func ExpFloat64() float64                                      { return g.ExpFloat64() }
func Perm(n int) []int                                         { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int))                       { g.Shuffle(n, swap) }
func Read(p []byte) (n int, err error)                         { return g.Read(p) }
