package lab

import (
	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
	"vsim/run"
)

// Shape describes a parameter set in a plan (all fields are plan integers so that shrinking and replay see them).
type Shape struct {
	LogN, NQ, NP int
	Q0, QB, PB   int // bit sizes of the first modulus, the others, the special ones
	CI           int // 1: conjugate invariant ring
	H            int // 0: default
	Sigma        int // in tenths; 0: default
	Seed         int
	Mix          int // 1: the Q sizes vary around QB; 2: the first half is smaller
}

func (s Shape) Put(p *run.Plan) {
	p.Set("logn", s.LogN)
	p.Set("nq", s.NQ)
	p.Set("np", s.NP)
	p.Set("q0", s.Q0)
	p.Set("qb", s.QB)
	p.Set("pb", s.PB)
	p.Set("ci", s.CI)
	p.Set("h", s.H)
	p.Set("sigma", s.Sigma)
	p.Set("pseed", s.Seed)
	p.Set("mix", s.Mix)
}

func GetShape(p *run.Plan) (s Shape) {
	s.LogN, s.NQ, s.NP = p.Get("logn"), p.Get("nq"), p.Get("np")
	s.Q0, s.QB, s.PB = p.Get("q0"), p.Get("qb"), p.Get("pb")
	s.CI, s.H, s.Sigma, s.Seed, s.Mix = p.Get("ci"), p.Get("h"), p.Get("sigma"), p.Get("pseed"), p.Get("mix")
	return
}

// RandShape draws a shape.
func RandShape(r *core.RNG, maxLogN, maxQ, minP, maxP int) (s Shape) {
	s.LogN = 4 + r.W(3, 5, 1)
	if s.LogN > maxLogN {
		s.LogN = maxLogN
	}
	s.NQ = 1 + r.N(maxQ)
	s.NP = r.R(minP, maxP)
	s.QB = 30 + r.N(26)
	s.Q0 = s.QB + r.N(60-s.QB+1)
	s.PB = s.QB + r.N(61-s.QB+1)
	if r.P(0.25) {
		s.PB = 61
	}
	if r.P(0.05) { // a first modulus below the others
		s.Q0 = 30 + r.N(s.QB-29)
	}
	if r.P(0.05) { // special moduli below the others
		s.PB = 30 + r.N(s.QB-29)
	}
	if r.P(0.3) {
		s.CI = 1
	}
	if r.P(0.3) {
		s.H = 1 + r.N(1<<uint(s.LogN))
	}
	if r.P(0.3) {
		s.Sigma = 5 + r.N(60)
	}
	if r.P(0.3) {
		s.Mix = 1
	}
	s.Seed = r.N(1 << 20)
	return
}

// Long turns the shape into one with a long chain of moduli as large as they may be, over a small ring: accumulators that
// are reduced too rarely only overflow there.
func (s *Shape) Long(r *core.RNG) {
	s.LogN = 4
	s.NQ = 9 + r.N(24)
	s.QB = 58 + r.N(3)
	if r.P(0.3) {
		s.QB = 40 + r.N(20)
	}
	s.Q0 = 60
	s.PB = 60 + r.N(2)
	if r.P(0.45) {
		s.Q0 = 30 + r.N(30)
	}
	if r.P(0.1) {
		s.PB = 50 + r.N(10)
	}
	s.Mix = 0
	if r.P(0.3) {
		s.Mix = 2
	}
	if s.NP > 2 {
		s.NP = 2
	}
	if s.H > 16 {
		s.H = 16
	}
}

// Wide turns the shape into a short chain over a ring of degree 128 and more: buffers that are refilled, split or indexed
// by blocks only show their seams there. Large degrees are rare, they are slow.
func (s *Shape) Wide(r *core.RNG, top int) {
	s.LogN = min(7+r.W(50, 30, 12, 6, 2, 1), top)
	s.NQ = 1 + r.N(min(s.NQ, 3))
	s.NP = min(s.NP, 2)
	if r.P(0.5) {
		s.NP = min(s.NP, 1)
	}
	if s.H > 0 {
		s.H = 1 + r.N(1<<uint(s.LogN))
	}
}

// Huge turns the shape into one or two moduli over one of the largest rings the library admits: indices, counts and Galois
// elements no longer fit 16 bits there.
func (s *Shape) Huge(r *core.RNG) {
	s.LogN = 15 + r.W(2, 3, 3)
	s.NQ = 1 + r.W(3, 2)
	s.NP = min(s.NP, 1)
	if s.H > 0 {
		s.H = 1 + r.N(1<<uint(s.LogN))
	}
}

// Moduli returns the moduli of the shape.
func (s Shape) Moduli() (q, p []uint64) {
	nth := 2 << uint(s.LogN)
	if s.CI == 1 {
		nth *= 2
	}
	pk := NewPicker(uint64(s.Seed)+77, nth)
	for i := 0; i < s.NQ; i++ {
		b := s.QB
		switch {
		case s.Mix == 1 && i > 0:
			b += pk.r.N(5) - 2
		case s.Mix == 2 && i < s.NQ/2:
			b -= 12
		}
		if i == 0 {
			b = s.Q0
		}
		q = append(q, pk.Prime(b))
	}
	for i := 0; i < s.NP; i++ {
		p = append(p, pk.Prime(s.PB))
	}
	return
}

func (s Shape) Type() ring.Type {
	if s.CI == 1 {
		return ring.ConjugateInvariant
	}
	return ring.Standard
}

func (s Shape) SigmaF() float64 {
	if s.Sigma == 0 {
		return rlwe.DefaultSigma
	}
	return float64(s.Sigma) / 10
}

// Literal of the shape.
func (s Shape) Literal() rlwe.ParametersLiteral {
	q, p := s.Moduli()
	if p == nil {
		p = []uint64{}
	}
	return rlwe.ParametersLiteral{LogN: s.LogN, Q: q, P: p, H: s.H, Sigma: s.SigmaF(), RingType: s.Type()}
}

// RLWE builds the parameters; a refusal is harness trouble because shapes are valid by construction.
func (s Shape) RLWE() rlwe.Parameters {
	p, err := rlwe.NewParametersFromLiteral(s.Literal())
	if err != nil {
		run.Fail("parameters refused: %v %+v", err, s)
	}
	return p
}

// CKKS builds CKKS parameters.
func (s Shape) CKKS(logSlots int, scale float64) ckks.Parameters {
	p, err := ckks.NewParameters(s.RLWE(), logSlots, scale)
	if err != nil {
		run.Fail("ckks parameters refused: %v %+v", err, s)
	}
	return p
}
