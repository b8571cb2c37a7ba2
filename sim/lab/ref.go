package lab

import (
	"math/big"

	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/run"
)

// Rows is a polynomial modulo several primes.
type Rows [][]uint64

// Coeffs brings rows of a library polynomial into canonical coefficient form: residues below the modulus, no
// Montgomery factor, coefficient domain.
func Coeffs(r *ring.Ring, c [][]uint64, ntt, mont bool) Rows {
	if len(c) > len(r.Modulus) {
		run.Fail("polynomial with %d rows in a ring with %d moduli", len(c), len(r.Modulus))
	}
	res := make(Rows, len(c))
	for i := range c {
		q := r.Modulus[i]
		row := make([]uint64, r.N)
		for j := range row {
			row[j] = c[i][j] % q
			if mont {
				row[j] = InvM(row[j], q)
			}
		}
		if ntt {
			r.InvNTTSingle(i, row, row)
			for j := range row {
				row[j] %= q
			}
		}
		res[i] = row
	}
	return res
}

// Evals brings rows into canonical evaluation form.
func Evals(r *ring.Ring, c [][]uint64, ntt, mont bool) Rows {
	res := make(Rows, len(c))
	for i := range c {
		q := r.Modulus[i]
		row := make([]uint64, r.N)
		for j := range row {
			row[j] = c[i][j] % q
			if mont {
				row[j] = InvM(row[j], q)
			}
		}
		if !ntt {
			r.NTTSingle(i, row, row)
			for j := range row {
				row[j] %= q
			}
		}
		res[i] = row
	}
	return res
}

// MulAdd adds a*b (evaluation form) to acc.
func MulAdd(r *ring.Ring, acc, a, b Rows) {
	for i := range acc {
		q := r.Modulus[i]
		for j := range acc[i] {
			acc[i][j] = AddMod(acc[i][j], MulMod(a[i][j], b[i][j], q), q)
		}
	}
}

func Mul(r *ring.Ring, a, b Rows) Rows {
	n := min(len(a), len(b))
	acc := make(Rows, n)
	for i := range acc {
		acc[i] = make([]uint64, r.N)
	}
	MulAdd(r, acc, a, b)
	return acc
}

func (c Rows) Clone() Rows {
	res := make(Rows, len(c))
	for i := range c {
		res[i] = append([]uint64(nil), c[i]...)
	}
	return res
}

// Small reads small integers off one row.
func Small(row []uint64, q uint64) []int64 {
	res := make([]int64, len(row))
	for j, c := range row {
		if c > q/2 {
			res[j] = -int64(q - c)
		} else {
			res[j] = int64(c)
		}
	}
	return res
}

// FromInts spreads integers over the ring's first rows, in coefficient form.
func FromInts(r *ring.Ring, v []int64, rows int) Rows {
	res := make(Rows, rows)
	for i := range res {
		q := r.Modulus[i]
		res[i] = make([]uint64, r.N)
		for j, x := range v {
			if x < 0 {
				res[i][j] = q - uint64(-x)%q
				if res[i][j] == q {
					res[i][j] = 0
				}
			} else {
				res[i][j] = uint64(x) % q
			}
		}
	}
	return res
}

// Secret is a secret key in the reference's forms.
type Secret struct {
	Ints []int64 // coefficients
	Q, P Rows    // evaluation form
	ok   bool
}

// ReadSecret extracts a library secret key; its rows must all represent one small polynomial.
func ReadSecret(p rlwe.Parameters, sk *rlwe.SecretKey) *Secret {
	s := &Secret{ok: true}
	rq := p.RingQ()
	c := Coeffs(rq, sk.Value.Q.Coeffs, true, true)
	s.Ints = Small(c[0], rq.Modulus[0])
	s.Q = Evals(rq, sk.Value.Q.Coeffs, true, true)
	if sk.Value.P != nil {
		s.P = Evals(p.RingP(), sk.Value.P.Coeffs, true, true)
		for i, row := range Coeffs(p.RingP(), sk.Value.P.Coeffs, true, true) {
			s.ok = s.ok && same(Small(row, p.RingP().Modulus[i]), s.Ints)
		}
	}
	for i, row := range c {
		s.ok = s.ok && same(Small(row, rq.Modulus[i]), s.Ints)
	}
	return s
}

// Consistent reports whether all residues represent one polynomial.
func (s *Secret) Consistent() bool { return s.ok }

func same(a, b []int64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Phase returns c0 + c1 s + c2 s^2 + ... in coefficient form, per modulus.
func Phase(r *ring.Ring, val []*ring.Poly, s Rows) Rows {
	lvl := len(val[0].Coeffs)
	for _, v := range val {
		lvl = min(lvl, len(v.Coeffs))
	}
	acc := make(Rows, lvl)
	for i := range acc {
		acc[i] = make([]uint64, r.N)
	}
	var pw Rows
	for k, v := range val {
		e := Evals(r, v.Coeffs[:lvl], v.IsNTT, false)
		switch k {
		case 0:
			for i := range acc {
				copy(acc[i], e[i])
			}
			continue
		case 1:
			pw = s[:lvl].Clone()
		default:
			pw = Mul(r, pw, s[:lvl])
		}
		MulAdd(r, acc, e, pw)
	}
	return Coeffs(r, acc, true, false)
}

// CRT reconstructs centred integers.
func CRT(rows Rows, mods []uint64) []*big.Int {
	l := len(rows)
	n := len(rows[0])
	Q := big.NewInt(1)
	for i := 0; i < l; i++ {
		Q.Mul(Q, new(big.Int).SetUint64(mods[i]))
	}
	f := make([]*big.Int, l)
	for i := 0; i < l; i++ {
		q := new(big.Int).SetUint64(mods[i])
		h := new(big.Int).Quo(Q, q)
		f[i] = new(big.Int).ModInverse(h, q)
		f[i].Mul(f[i], h)
	}
	half := new(big.Int).Rsh(Q, 1)
	res := make([]*big.Int, n)
	var t big.Int
	for j := 0; j < n; j++ {
		a := new(big.Int)
		for i := 0; i < l; i++ {
			t.SetUint64(rows[i][j])
			t.Mul(&t, f[i])
			a.Add(a, &t)
		}
		a.Mod(a, Q)
		if a.Cmp(half) > 0 {
			a.Sub(a, Q)
		}
		res[j] = a
	}
	return res
}

// Ints converts reconstructed coefficients to int64 where they fit; ok is false otherwise.
func Ints(v []*big.Int) (res []int64, ok bool) {
	res = make([]int64, len(v))
	ok = true
	for i, x := range v {
		if !x.IsInt64() {
			ok = false
			continue
		}
		res[i] = x.Int64()
	}
	return
}

// MaxAbs of integers.
func MaxAbs(v []int64) (m int64) {
	for _, x := range v {
		if x < 0 {
			x = -x
		}
		if x > m {
			m = x
		}
	}
	return
}

// MaxBits is the bit length of the largest coefficient.
func MaxBits(v []*big.Int) (m int) {
	for _, x := range v {
		if b := x.BitLen(); b > m {
			m = b
		}
	}
	return
}

// SubRows returns a-b.
func SubRows(a, b Rows, mods []uint64) Rows {
	n := min(len(a), len(b))
	res := make(Rows, n)
	for i := range res {
		res[i] = make([]uint64, len(a[i]))
		for j := range res[i] {
			res[i][j] = SubMod(a[i][j], b[i][j], mods[i])
		}
	}
	return res
}
func AddRows(a, b Rows, mods []uint64) Rows {
	n := min(len(a), len(b))
	res := make(Rows, n)
	for i := range res {
		res[i] = make([]uint64, len(a[i]))
		for j := range res[i] {
			res[i][j] = AddMod(a[i][j], b[i][j], mods[i])
		}
	}
	return res
}

// Auto applies X -> X^g to a polynomial with integer coefficients, in Z[X]/(X^N+1) or, for ci, in the ring of
// polynomials in X+1/X modulo X^2N+1 whose i-th basis element is X^i+X^-i.
func Auto(v []int64, g uint64, ci bool) []int64 {
	n := len(v)
	res := make([]int64, n)
	if ci {
		res[0] = v[0]
		for i := 1; i < n; i++ {
			k := int(uint64(i) * g % uint64(4*n))
			if k > 2*n {
				k = 4*n - k
			}
			if k > n {
				res[2*n-k] -= v[i]
			} else if k < n {
				res[k] += v[i]
			}
		}
		return res
	}
	for i := 0; i < n; i++ {
		k := int(uint64(i) * (g % uint64(2*n)) % uint64(2*n))
		if k >= n {
			res[k-n] -= v[i]
		} else {
			res[k] += v[i]
		}
	}
	return res
}

// Unfold writes c_0 + sum c_i (X^i + X^-i) as a polynomial of twice the degree modulo X^2N+1.
func Unfold(v []int64) []int64 {
	n := len(v)
	res := make([]int64, 2*n)
	copy(res, v)
	for i := 1; i < n; i++ {
		res[2*n-i] -= v[i]
	}
	return res
}

// Spread writes a polynomial in Y as one in X, where Y = X^gap.
func Spread(v []int64, gap int) []int64 {
	res := make([]int64, len(v)*gap)
	for i, x := range v {
		res[i*gap] = x
	}
	return res
}

// L1 is the sum of absolute values.
func L1(v []int64) (s int64) {
	for _, x := range v {
		if x < 0 {
			x = -x
		}
		s += x
	}
	return
}

// EvalInts is the evaluation form of integers modulo the first rows moduli.
func EvalInts(r *ring.Ring, v []int64, rows int) Rows {
	return Evals(r, FromInts(r, v, rows), false, false)
}

// ScaleRows multiplies row i by k mod q_i.
func ScaleRows(a Rows, k *big.Int, mods []uint64) Rows {
	res := make(Rows, len(a))
	for i := range a {
		q := mods[i]
		f := new(big.Int).Mod(k, new(big.Int).SetUint64(q)).Uint64()
		res[i] = make([]uint64, len(a[i]))
		for j := range a[i] {
			res[i][j] = MulMod(a[i][j], f, q)
		}
	}
	return res
}

// Prod of moduli.
func Prod(m []uint64) *big.Int {
	p := big.NewInt(1)
	for _, x := range m {
		p.Mul(p, new(big.Int).SetUint64(x))
	}
	return p
}

// MaxBig is the largest absolute value.
func MaxBig(v []*big.Int) *big.Int {
	m := new(big.Int)
	for _, x := range v {
		if x.CmpAbs(m) > 0 {
			m.Abs(x)
		}
	}
	return m
}
