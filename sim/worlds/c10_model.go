package worlds

import (
	"math"
	"math/big"
	"math/cmplx"

	"fast-ksw/ckks"
	"fast-ksw/ring"

	"vsim/lab"
)

// slotMap evaluates polynomials with real coefficients at the points that the slots stand for: slot k is the value at
// zeta^(5^k), for a primitive root of unity zeta of the ring's order.
type slotMap struct {
	n, slots int
	ci       bool
	pow      []complex128 // zeta^i
	five     []uint64
	nth      uint64
}

func newSlotMap(rq *ring.Ring) *slotMap {
	m := &slotMap{n: rq.N, ci: rq.Type() == ring.ConjugateInvariant, nth: rq.NthRoot}
	m.slots = m.n / 2
	if m.ci {
		m.slots = m.n
	}
	m.pow = make([]complex128, m.nth)
	for i := range m.pow {
		s, c := math.Sincos(2 * math.Pi * float64(i) / float64(m.nth))
		m.pow[i] = complex(c, s)
	}
	f := uint64(1)
	for k := 0; k < m.slots; k++ {
		m.five = append(m.five, f)
		f = f * 5 % m.nth
	}
	return m
}

// eval returns the slots of a polynomial.
func (m *slotMap) eval(c []float64) []complex128 {
	v := make([]complex128, m.slots)
	for k := range v {
		var x complex128
		for j, cj := range c {
			if cj == 0 {
				continue
			}
			z := m.pow[m.five[k]*uint64(j)%m.nth]
			if m.ci {
				if j > 0 {
					z = complex(2*real(z), 0)
				}
			}
			x += complex(cj, 0) * z
		}
		v[k] = x
	}
	return v
}

// coeffs inverts eval.
func (m *slotMap) coeffs(v []complex128) []float64 {
	c := make([]float64, m.n)
	for j := range c {
		x := 0.0
		for k := range v {
			z := m.pow[m.five[k]*uint64(j)%m.nth]
			if m.ci {
				x += real(v[k]) * real(z)
			} else {
				x += 2 * real(v[k]*cmplx.Conj(z))
			}
		}
		c[j] = x / float64(m.n)
	}
	return c
}

// c10Val is what a ciphertext ought to decrypt to.
type c10Val struct {
	v     []complex128 // all slots
	err   float64      // bound on the error of a slot
	scale float64
	lvl   int
	deg   int
	sec   int
	ls    int // the values repeat with period 2^ls
}

func (x *c10Val) max() (m float64) {
	for _, z := range x.v {
		m = math.Max(m, cmplx.Abs(z))
	}
	return
}

func maxC(v []complex128) (m float64) {
	for _, z := range v {
		m = math.Max(m, cmplx.Abs(z))
	}
	return
}

// fill repeats values to all slots.
func fill(v []complex128, ls, slots int) []complex128 {
	r := make([]complex128, slots)
	for k := range r {
		if i := k % (1 << uint(ls)); i < len(v) {
			r[k] = v[i]
		}
	}
	return r
}

func mapC(v []complex128, f func(int, complex128) complex128) []complex128 {
	r := make([]complex128, len(v))
	for i, x := range v {
		r[i] = f(i, x)
	}
	return r
}

func rotC(v []complex128, k int) []complex128 {
	n := len(v)
	return mapC(v, func(i int, _ complex128) complex128 { return v[((i+k)%n+n)%n] })
}

// readSlots reads what a ciphertext holds under a secret (rows of its evaluation form).
func readSlots(m *slotMap, rq *ring.Ring, ct *ckks.Ciphertext, s lab.Rows) []complex128 {
	ph := phaseEval(rq, ct.Value, s)
	v := lab.CRT(lab.Coeffs(rq, ph, true, false), rq.Modulus)
	c := make([]float64, len(v))
	for i, x := range v {
		f, _ := new(big.Float).Quo(new(big.Float).SetInt(x), big.NewFloat(ct.Scale)).Float64()
		c[i] = f
	}
	return m.eval(c)
}

func bigF(x *big.Int) float64 {
	f, _ := new(big.Float).SetInt(x).Float64()
	return f
}
