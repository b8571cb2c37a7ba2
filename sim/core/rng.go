// Package core holds the run machinery: randomness, plans, shrinking, reporting.
package core

import "math"

// RNG is splitmix64-seeded xoshiro256**: the only source of choice in a simulated run.
type RNG struct{ s [4]uint64 }

func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// H combines words into one.
func H(xs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range xs {
		h = Mix(h ^ Mix(x))
	}
	return h
}

// HS hashes a string.
func HS(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return Mix(h)
}

func NewRNG(seed uint64) *RNG {
	r := &RNG{}
	for i := range r.s {
		seed = Mix(seed + uint64(i)*0x9e3779b97f4a7c15)
		r.s[i] = seed
	}
	return r
}

func rotl(x uint64, k uint) uint64 { return x<<k | x>>(64-k) }

func (r *RNG) U64() uint64 {
	s := &r.s
	res := rotl(s[1]*5, 7) * 9
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = rotl(s[3], 45)
	return res
}

// N returns a value in [0, n).
func (r *RNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// R returns a value in [a, b].
func (r *RNG) R(a, b int) int {
	if b <= a {
		return a
	}
	return a + r.N(b-a+1)
}
func (r *RNG) F() float64       { return float64(r.U64()>>11) / (1 << 53) }
func (r *RNG) P(p float64) bool { return r.F() < p }
func (r *RNG) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		x := r.U64()
		for j := i; j < len(b) && j < i+8; j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
}
func (r *RNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Norm returns an approximately normal value.
func (r *RNG) Norm() float64 {
	u, v := 1-r.F(), r.F()
	return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*v)
}

// W picks an index with the given weights.
func (r *RNG) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}
