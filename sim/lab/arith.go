package lab

import "math/bits"

// Plain modular arithmetic, independent of the library.

func MulMod(a, b, q uint64) uint64 {
	hi, lo := bits.Mul64(a%q, b%q)
	_, r := bits.Div64(hi, lo, q)
	return r
}
func AddMod(a, b, q uint64) uint64 {
	a, b = a%q, b%q
	s, c := bits.Add64(a, b, 0)
	if c == 1 || s >= q {
		s -= q
	}
	return s
}
func SubMod(a, b, q uint64) uint64 { return AddMod(a, q-b%q, q) }
func PowMod(a, e, q uint64) uint64 {
	r := uint64(1 % q)
	a %= q
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = MulMod(r, a, q)
		}
		a = MulMod(a, a, q)
	}
	return r
}

// InvMod for prime q.
func InvMod(a, q uint64) uint64 { return PowMod(a, q-2, q) }

var rinv = map[uint64]uint64{}

// InvM removes the Montgomery factor 2^64.
func InvM(a, q uint64) uint64 {
	k, ok := rinv[q]
	if !ok {
		k = InvMod(PowMod(2, 64, q), q)
		rinv[q] = k
	}
	return MulMod(a, k, q)
}
