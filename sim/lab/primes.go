// Package lab holds what several worlds share: parameter shapes, reference computations, comparisons.
package lab

import (
	"math/big"
	"sync"

	"vsim/core"
)

var (
	pmu    sync.Mutex
	ptable = map[[3]int][]uint64{}
)

// primeTable lists primes of the given bit length congruent to 1 mod nth: the largest ones (where 0), the smallest ones
// (where 1; a random word masked to their length is rejected half of the time) or some in between.
func primeTable(bits, nth, n, where int) []uint64 {
	pmu.Lock()
	defer pmu.Unlock()
	k := [3]int{bits, nth, where}
	l := ptable[k]
	if len(l) >= n {
		return l
	}
	l = nil
	lo, hi, m := uint64(1)<<uint(bits-1), uint64(1)<<uint(bits), uint64(nth)
	switch where {
	case 0:
		for x := hi - m + 1; x > lo && len(l) < n+8; x -= m {
			if new(big.Int).SetUint64(x).ProbablyPrime(0) {
				l = append(l, x)
			}
		}
	default:
		x := lo + 1
		if where == 2 {
			x += lo / 8 * 3 / m * m
		}
		for ; x < hi && len(l) < n+8; x += m {
			if new(big.Int).SetUint64(x).ProbablyPrime(0) {
				l = append(l, x)
			}
		}
	}
	ptable[k] = l
	return l
}

// Picker hands out distinct primes.
type Picker struct {
	r    *core.RNG
	nth  int
	used map[uint64]bool
}

func NewPicker(seed uint64, nth int) *Picker {
	return &Picker{core.NewRNG(seed), nth, map[uint64]bool{}}
}

// Prime returns a prime of the given size; the pool per size is small, so neighbours and gaps both occur.
func (p *Picker) Prime(bits int) uint64 {
	for b := bits; ; {
		t := primeTable(b, p.nth, 24, p.r.W(6, 2, 2))
		var free []uint64
		for _, x := range t {
			if !p.used[x] {
				free = append(free, x)
			}
		}
		if len(free) > 0 {
			x := free[p.r.N(len(free))]
			p.used[x] = true
			return x
		}
		b++
		if b > 61 {
			panic("no prime left")
		}
	}
}
