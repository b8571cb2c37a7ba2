package worlds

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
)

// The catalogue's lower layers: polynomial arithmetic in the shared rings, and the methods of shared objects.

type ringFam struct{ q, p *ring.Ring }

// ringOp describes a method of a ring: L level, 1 polynomial, u polynomial above the moduli, 0 scratch, o receiver,
// a accumulator, s scalar, m small modulus, n small number, b big number, v vector, g Galois element, x its table.
type ringOp struct {
	name, sig string
	place     bool // may be used in place
	drop      int  // rows fewer in the result (-1: the drawn number)
}

var ringOps = []ringOp{
	{"Add", "11o", true, 0}, {"AddLvl", "L11o", true, 0}, {"AddNoMod", "11o", true, 0}, {"AddNoModLvl", "L11o", true, 0},
	{"Sub", "11o", true, 0}, {"SubLvl", "L11o", true, 0}, {"SubNoMod", "11o", true, 0}, {"SubNoModLvl", "L11o", true, 0},
	{"Neg", "1o", true, 0}, {"NegLvl", "L1o", true, 0}, {"Reduce", "uo", true, 0}, {"ReduceLvl", "Luo", true, 0},
	{"ReduceConstant", "uo", true, 0}, {"ReduceConstantLvl", "Luo", true, 0}, {"Mod", "1mo", true, 0}, {"ModLvl", "L1mo", true, 0},
	{"MulCoeffs", "11o", true, 0}, {"MulCoeffsLvl", "L11o", true, 0}, {"MulCoeffsAndAdd", "11a", false, 0}, {"MulCoeffsAndAddLvl", "L11a", false, 0},
	{"MulCoeffsAndAddNoMod", "11a", false, 0}, {"MulCoeffsAndAddNoModLvl", "L11a", false, 0},
	{"MulCoeffsMontgomery", "11o", true, 0}, {"MulCoeffsMontgomeryLvl", "L11o", true, 0},
	{"MulCoeffsMontgomeryConstant", "11o", true, 0}, {"MulCoeffsMontgomeryConstantLvl", "L11o", true, 0},
	{"MulCoeffsMontgomeryConstantAndNegLvl", "L11o", true, 0},
	{"MulCoeffsMontgomeryAndAdd", "11a", false, 0}, {"MulCoeffsMontgomeryAndAddLvl", "L11a", false, 0},
	{"MulCoeffsMontgomeryAndAddNoMod", "11a", false, 0}, {"MulCoeffsMontgomeryAndAddNoModLvl", "L11a", false, 0},
	{"MulCoeffsMontgomeryConstantAndAddNoMod", "11a", false, 0}, {"MulCoeffsMontgomeryConstantAndAddNoModLvl", "L11a", false, 0},
	{"MulCoeffsMontgomeryAndSub", "11a", false, 0}, {"MulCoeffsMontgomeryAndSubLvl", "L11a", false, 0},
	{"MulCoeffsMontgomeryAndSubNoMod", "11a", false, 0}, {"MulCoeffsMontgomeryAndSubNoModLvl", "L11a", false, 0},
	{"MulCoeffsMontgomeryConstantAndSubNoModLvl", "L11a", false, 0}, {"MulCoeffsConstant", "11o", true, 0}, {"MulCoeffsConstantLvl", "L11o", true, 0},
	{"AddScalar", "1so", true, 0}, {"AddScalarLvl", "L1so", true, 0}, {"AddScalarBigint", "1bo", true, 0}, {"AddScalarBigintLvl", "L1bo", true, 0},
	{"SubScalar", "1so", true, 0}, {"SubScalarLvl", "L1so", true, 0}, {"SubScalarBigint", "1bo", true, 0}, {"SubScalarBigintLvl", "L1bo", true, 0},
	{"MulScalar", "1so", true, 0}, {"MulScalarLvl", "L1so", true, 0}, {"MulScalarBigint", "1bo", true, 0}, {"MulScalarBigintLvl", "L1bo", true, 0},
	{"Shift", "1no", false, 0}, {"MForm", "1o", true, 0}, {"MFormLvl", "L1o", true, 0}, {"MFormConstantLvl", "L1o", true, 0},
	{"InvMForm", "1o", true, 0}, {"InvMFormLvl", "L1o", true, 0}, {"MulByPow2", "1no", true, 0}, {"MulByPow2Lvl", "L1no", true, 0},
	{"MulByPow2New", "1n", false, 0}, {"MultByMonomial", "1no", true, 0}, {"MultByMonomialNew", "1n", false, 0},
	{"MulByVectorMontgomery", "1vo", true, 0}, {"MulByVectorMontgomeryLvl", "L1vo", true, 0},
	{"MulByVectorMontgomeryAndAddNoMod", "1va", false, 0}, {"MulByVectorMontgomeryAndAddNoModLvl", "L1va", false, 0},
	{"BitReverse", "1o", true, 0}, {"Rotate", "1no", true, 0},
	{"NTT", "1o", true, 0}, {"NTTLvl", "L1o", true, 0}, {"NTTLazy", "1o", true, 0}, {"NTTLazyLvl", "L1o", true, 0},
	{"InvNTT", "1o", true, 0}, {"InvNTTLvl", "L1o", true, 0}, {"InvNTTLazy", "1o", true, 0}, {"InvNTTLazyLvl", "L1o", true, 0},
	{"Permute", "1go", false, 0}, {"PermuteNTT", "1go", false, 0}, {"PermuteNTTLvl", "L1go", false, 0},
	{"PermuteNTTWithIndexLvl", "L1xo", false, 0}, {"PermuteNTTWithIndexAndAddNoModLvl", "L1xa", false, 0},
	{"DivFloorByLastModulusLvl", "L1o", true, 1}, {"DivFloorByLastModulusNTTLvl", "L10o", true, 1},
	{"DivRoundByLastModulusLvl", "L1o", true, 1}, {"DivRoundByLastModulusNTTLvl", "L10o", true, 1},
	{"DivFloorByLastModulusManyLvl", "LD10o", true, -1}, {"DivFloorByLastModulusManyNTTLvl", "LD10o", true, -1},
	{"DivRoundByLastModulusManyLvl", "LD10o", true, -1}, {"DivRoundByLastModulusManyNTTLvl", "LD10o", true, -1},
	{"Equal", "uu", false, 0}, {"EqualLvl", "Luu", false, 0}, {"PolyToString", "1", false, 0}, {"MarshalBinary", "", false, 0},
	{"PermuteNTTIndex", "g", false, 0}, {"PolyToBigint", "1GB", false, 0}, {"PolyToBigintLvl", "L1GB", false, 0}, {"PolyToBigintCenteredLvl", "L1GB", false, 0},
	{"SetCoefficientsInt64", "io", false, 0}, {"SetCoefficientsUint64", "Uo", false, 0}, {"SetCoefficientsBigint", "Ko", false, 0},
	{"SetCoefficientsBigintLvl", "LKo", false, 0}, {"SetCoefficientsString", "To", false, 0},
}

func bigs(r *core.RNG, n int) (res []*big.Int) {
	for i := 0; i < n; i++ {
		b := new(big.Int).SetUint64(r.U64())
		b.Lsh(b, uint(r.N(70)))
		if r.P(0.5) {
			b.Neg(b)
		}
		res = append(res, b)
	}
	return
}

func (l *lib) ringCatalog(c *ccall, r *core.RNG) {
	op := ringOps[r.N(len(ringOps))]
	c.name = op.name
	fam := r.P(0.3) && l.hasP
	rg := l.p.RingQ()
	if fam {
		rg = l.p.RingP()
	}
	mx := len(rg.Modulus) - 1
	lvl, full := mx, true
	if len(op.sig) > 0 && op.sig[0] == 'L' {
		lvl, full = r.N(mx+1), false
	}
	if op.drop != 0 && lvl == 0 {
		if lvl = mx; mx == 0 {
			op, c.name = ringOp{"NegLvl", "L1o", true, 0}, "NegLvl"
		}
	}
	drop := op.drop
	if drop < 0 {
		drop = r.N(lvl + 1)
	}
	poly := func(lvl int) *ring.Poly {
		if full {
			return randPoly(r, rg, mx)
		}
		return randPoly(r, rg, lvl+r.N(mx-lvl+1))
	}
	// args: how each parameter is passed
	var args []func(in, out []interface{}) interface{}
	val := func(v interface{}) {
		args = append(args, func(in, out []interface{}) interface{} { return v })
	}
	input := func(v interface{}) {
		i := len(c.in)
		c.in = append(c.in, v)
		args = append(args, func(in, out []interface{}) interface{} { return in[i] })
	}
	output := func(v interface{}) {
		i := len(c.out)
		c.out = append(c.out, v)
		args = append(args, func(in, out []interface{}) interface{} { return out[i] })
	}
	gap := 1
	var sizes []int // rows of the receivers
	var fits []func() interface{}
	for _, s := range op.sig {
		switch s {
		case 'L':
			val(lvl)
		case 'D':
			val(drop)
		case '1', 'u':
			if op.place {
				c.alias = append(c.alias, len(c.in))
			}
			p := poly(lvl)
			if s == 'u' {
				for i := range p.Coeffs {
					for j := range p.Coeffs[i] {
						p.Coeffs[i][j] += uint64(r.N(3)) * rg.Modulus[i]
					}
				}
			}
			input(p)
		case '0':
			args = append(args, func(in, out []interface{}) interface{} { return rg.NewPoly() })
		case 'o', 'a':
			if op.sig != "1no" || op.name != "Shift" {
				output(poly(lvl))
			} else {
				output(randPoly(r, rg, mx))
			}
			n := lvl + 1 - drop
			sizes = append(sizes, n)
			fits = append(fits, func() interface{} {
				if drop > 0 {
					return rg.NewPolyLvl(lvl)
				}
				return rg.NewPolyLvl(n - 1)
			})
			c.acc = s == 'a'
		case 'B':
			output(bigs(r, rg.N/gap))
			k := rg.N / gap
			sizes = append(sizes, k)
			fits = append(fits, func() interface{} {
				z := make([]*big.Int, k)
				for i := range z {
					z[i] = new(big.Int)
				}
				return z
			})
		case 'G':
			gap = 1 << uint(r.N(3))
			val(gap)
		case 's':
			val(uint64(r.N(1 << 20)))
		case 'm':
			val(uint64(2*r.N(1<<20) + 3))
		case 'n':
			k := r.N(rg.N)
			if r.P(0.1) {
				k = 0
			}
			if (op.name == "MultByMonomial" || op.name == "Rotate") && r.P(0.3) {
				k = r.N(4 * rg.N)
			}
			if op.name == "MulByPow2" || op.name == "MulByPow2Lvl" || op.name == "MulByPow2New" {
				k = r.N(20)
			}
			val(k)
		case 'b':
			input(bigs(r, 1)[0])
		case 'v':
			v := make([]uint64, rg.N)
			for i := range v {
				v[i] = uint64(r.N(1 << 20))
			}
			input(v)
		case 'g':
			val(l.galEl(r))
		case 'x':
			g := l.galEl(r)
			x := make([]uint64, rg.N)
			for i := range x {
				x[i] = (uint64(i)*g + g>>1) % uint64(rg.N) // any permutation
			}
			input(x)
		case 'i':
			v := make([]int64, rg.N)
			for i := range v {
				v[i] = int64(r.U64()) >> uint(r.N(60))
			}
			input(v)
		case 'U':
			v := make([]uint64, rg.N)
			for i := range v {
				v[i] = r.U64()
			}
			input(v)
		case 'K':
			input(bigs(r, rg.N))
		case 'T':
			var v []string
			for _, b := range bigs(r, rg.N) {
				v = append(v, b.String())
			}
			input(v)
		}
	}
	if len(fits) > 0 && !c.acc {
		c.fit = func() (res []interface{}) {
			for _, f := range fits {
				res = append(res, f())
			}
			return
		}
	}
	c.note = fmt.Sprintf("level %d of %d", lvl, mx)
	name := op.name
	c.run = func(e interface{}, in, out []interface{}) (res []interface{}) {
		g := e.(*ringFam).q
		if fam {
			g = e.(*ringFam).p
		}
		var vs []reflect.Value
		for _, a := range args {
			vs = append(vs, reflect.ValueOf(a(in, out)))
		}
		for _, v := range reflect.ValueOf(g).MethodByName(name).Call(vs) {
			res = append(res, v.Interface())
		}
		for i, o := range out {
			if p, ok := o.(*ring.Poly); ok {
				res = append(res, rows{p, sizes[i]})
			} else if b, ok := o.([]*big.Int); ok {
				res = append(res, b[:sizes[i]])
			}
		}
		return
	}
}

// galEl draws a Galois element, mostly one of three, so that different calls ask for the same one.
func (l *lib) galEl(r *core.RNG) uint64 {
	if r.P(0.7) {
		return l.p.GaloisElementForColumnRotationBy(r.N(3))
	}
	if l.shape.CI != 0 {
		return l.p.GaloisElementForColumnRotationBy(r.N(l.p.N()))
	}
	return uint64(2*r.N(l.p.N()) + 1)
}

// objCatalog draws a method of a shared object.
func (l *lib) objCatalog(c *ccall, r *core.RNG, ct func(int) *ckks.Ciphertext, pt func() *ckks.Plaintext, dirty func(*ring.Ring, int) *ring.Poly) {
	mx := l.p.MaxLevel()
	rq := l.p.RingQ()
	type objOp struct {
		name string
		make func() (in, out []interface{}, fit func() []interface{}, run func(in, out []interface{}) []interface{})
	}
	only := func(v interface{}, f func(v interface{}) []interface{}) func() ([]interface{}, []interface{}, func() []interface{}, func(in, out []interface{}) []interface{}) {
		return func() ([]interface{}, []interface{}, func() []interface{}, func(in, out []interface{}) []interface{}) {
			return []interface{}{v}, nil, nil, func(in, out []interface{}) []interface{} { return f(in[0]) }
		}
	}
	blob := func(b []byte, err error) []interface{} { return []interface{}{b, err == nil} }
	x := ct(3)
	p0 := x.Value[0]
	ops := []objOp{
		{"ciphertext CopyNew", only(x, func(v interface{}) []interface{} { return []interface{}{v.(*ckks.Ciphertext).CopyNew()} })},
		{"ciphertext MarshalBinary", only(x, func(v interface{}) []interface{} {
			return append(blob(v.(*ckks.Ciphertext).MarshalBinary()), v.(*ckks.Ciphertext).GetDataLen(true))
		})},
		{"rlwe ciphertext CopyNew", only(x.Ciphertext, func(v interface{}) []interface{} { return []interface{}{v.(*rlwe.Ciphertext).CopyNew()} })},
		{"rlwe ciphertext MarshalBinary", only(x.Ciphertext, func(v interface{}) []interface{} { return blob(v.(*rlwe.Ciphertext).MarshalBinary()) })},
		{"ciphertext Copy", func() ([]interface{}, []interface{}, func() []interface{}, func(in, out []interface{}) []interface{}) {
			o := l.recv(r, "mul", x.Degree(), x.Level())
			if o == nil {
				o = l.randCt(r, x.Degree(), x.Level(), 3)
			}
			return []interface{}{x}, []interface{}{o}, l.fitCt(x.Degree(), x.Level()), func(in, out []interface{}) []interface{} {
				out[0].(*ckks.Ciphertext).Copy(in[0].(*ckks.Ciphertext))
				return out
			}
		}},
		{"rlwe plaintext Copy", func() ([]interface{}, []interface{}, func() []interface{}, func(in, out []interface{}) []interface{}) {
			y := pt()
			lv := y.Level()
			return []interface{}{y.Plaintext}, []interface{}{&rlwe.Plaintext{Value: dirty(rq, lv)}},
				func() []interface{} { return []interface{}{rlwe.NewPlaintext(l.p.Parameters, lv)} }, func(in, out []interface{}) []interface{} {
					out[0].(*rlwe.Plaintext).Copy(in[0].(*rlwe.Plaintext))
					return out
				}
		}},
		{"polynomial CopyNew", only(p0, func(v interface{}) []interface{} { return []interface{}{v.(*ring.Poly).CopyNew()} })},
		{"polynomial GetCoefficients", only(p0, func(v interface{}) []interface{} {
			return []interface{}{&ring.Poly{Coeffs: v.(*ring.Poly).GetCoefficients()}}
		})},
		{"polynomial MarshalBinary", only(p0, func(v interface{}) []interface{} {
			return append(blob(v.(*ring.Poly).MarshalBinary()), v.(*ring.Poly).GetDataLen(true))
		})},
		{"polynomial WriteTo32", only(p0, func(v interface{}) []interface{} {
			p := v.(*ring.Poly)
			b := make([]byte, p.GetDataLen32(true))
			n, err := p.WriteTo32(b)
			return []interface{}{b, n, err == nil}
		})},
		{"polynomial WriteCoeffs", only(p0, func(v interface{}) []interface{} {
			p := v.(*ring.Poly)
			b := make([]byte, p.GetDataLen(false))
			n, err := p.WriteCoeffs(b)
			return []interface{}{b, n, err == nil}
		})},
		{"polynomial Equals", func() ([]interface{}, []interface{}, func() []interface{}, func(in, out []interface{}) []interface{}) {
			return []interface{}{p0, ct(1).Value[0]}, nil, nil, func(in, out []interface{}) []interface{} {
				return []interface{}{in[0].(*ring.Poly).Equals(in[1].(*ring.Poly))}
			}
		}},
		{"polynomial Copy", func() ([]interface{}, []interface{}, func() []interface{}, func(in, out []interface{}) []interface{}) {
			k, lv := r.N(6), p0.Level()
			return []interface{}{p0}, []interface{}{dirty(rq, lv)}, func() []interface{} { return []interface{}{rq.NewPolyLvl(lv)} },
				func(in, out []interface{}) []interface{} {
					i, o := in[0].(*ring.Poly), out[0].(*ring.Poly)
					switch k {
					case 0:
						o.Copy(i)
					case 1:
						o.CopyValues(i)
					case 2:
						ring.Copy(i, o)
					case 3:
						ring.CopyValues(i, o)
					case 4:
						ring.CopyLvl(lv, i, o)
					default:
						o.SetCoefficients(i.Coeffs)
					}
					return []interface{}{rows{o, lv + 1}}
				}
		}},
		{"ciphertext to a smaller or larger ring", func() ([]interface{}, []interface{}, func() []interface{}, func(in, out []interface{}) []interface{}) {
			N, lv := rq.N, r.N(mx+1)
			k := r.N(4)
			if (k == 1 && N < 32) || (k == 1 && l.p.RingType() != ring.Standard) {
				k = 0
			}
			mods := rq.Modulus[:lv+1]
			mk := func(n int, fill bool) *rlwe.Ciphertext {
				v := &rlwe.Ciphertext{}
				for i := 0; i < 2; i++ {
					p := ring.NewPoly(n, lv+1)
					for j := range p.Coeffs {
						for h := range p.Coeffs[j] {
							if fill {
								p.Coeffs[j][h] = r.U64() % mods[j]
							}
						}
					}
					p.IsNTT = k%2 == 1
					v.Value = append(v.Value, p)
				}
				return v
			}
			// k: 0, 1 from the ring to one of half its degree; 2, 3 from the ring to one of twice its degree
			to := N / 2
			if k >= 2 {
				to = 2 * N
			}
			return []interface{}{mk(N, true)}, []interface{}{mk(to, r.P(0.7))}, func() []interface{} { return []interface{}{mk(to, false)} },
				func(in, out []interface{}) []interface{} {
					i, o := in[0].(*rlwe.Ciphertext), out[0].(*rlwe.Ciphertext)
					switch k {
					case 1:
						small, err := ring.NewRing(to, mods)
						if err != nil {
							return []interface{}{false}
						}
						rlwe.SwitchCiphertextRingDegreeNTT(i, small, rq, o)
					case 3:
						rlwe.SwitchCiphertextRingDegreeNTT(i, nil, nil, o)
					default:
						rlwe.SwitchCiphertextRingDegree(i, o)
					}
					return out
				}
		}},
		{"small to large ring", func() ([]interface{}, []interface{}, func() []interface{}, func(in, out []interface{}) []interface{}) {
			sm := &ring.Poly{}
			for i := 0; i <= mx; i++ {
				sm.Coeffs = append(sm.Coeffs, p0.Coeffs[0][:l.p.N()/2])
			}
			return []interface{}{sm}, []interface{}{dirty(rq, mx)}, func() []interface{} { return []interface{}{rq.NewPolyLvl(mx)} },
				func(in, out []interface{}) []interface{} {
					ring.MapSmallDimensionToLargerDimensionNTT(in[0].(*ring.Poly), out[0].(*ring.Poly))
					return []interface{}{rows{out[0].(*ring.Poly), mx + 1}}
				}
		}},
		{"folding and unfolding", func() ([]interface{}, []interface{}, func() []interface{}, func(in, out []interface{}) []interface{}) {
			n, lv, fold := l.p.N(), r.N(mx+1), r.P(0.5)
			wide := func() *ring.Poly {
				a, b := randPoly(r, rq, mx), randPoly(r, rq, mx)
				for i := range a.Coeffs {
					a.Coeffs[i] = append(append([]uint64(nil), a.Coeffs[i]...), b.Coeffs[i]...)
				}
				return a
			}
			zero := func(m int) *ring.Poly {
				p := &ring.Poly{}
				for i := 0; i <= lv; i++ {
					p.Coeffs = append(p.Coeffs, make([]uint64, m))
				}
				return p
			}
			if fold {
				idx := make([]uint64, 2*n)
				for i := range idx {
					idx[i] = uint64(2*n - 1 - i)
				}
				return []interface{}{wide(), idx}, []interface{}{dirty(rq, mx)}, func() []interface{} { return []interface{}{zero(n)} },
					func(in, out []interface{}) []interface{} {
						rq.FoldStandardToConjugateInvariant(lv, in[0].(*ring.Poly), in[1].([]uint64), out[0].(*ring.Poly))
						return []interface{}{rows{out[0].(*ring.Poly), lv + 1}}
					}
			}
			return []interface{}{randPoly(r, rq, mx)}, []interface{}{wide()}, func() []interface{} { return []interface{}{zero(2 * n)} },
				func(in, out []interface{}) []interface{} {
					rq.UnfoldConjugateInvariantToStandard(lv, in[0].(*ring.Poly), out[0].(*ring.Poly))
					return []interface{}{rows{out[0].(*ring.Poly), lv + 1}}
				}
		}},
		{"wrapped polynomials", only(p0, func(v interface{}) []interface{} {
			p := v.(*ring.Poly)
			q := ckks.NewPlaintextAtLevelFromPoly(p.Level(), p)
			c := ckks.NewCiphertextAtLevelFromPoly(p.Level(), [2]*ring.Poly{p, p})
			// they are the polynomial's memory by design
			return []interface{}{q.Level(), q.Degree(), cloneV(q.Value), c.Level(), c.Degree(), cloneV(c.Value[0]), cloneV(c.Value[1])}
		})},
		{"rings", only(rq, func(v interface{}) []interface{} {
			g := v.(*ring.Ring)
			var res []interface{}
			for _, f := range []func() (*ring.Ring, error){g.ConjugateInvariantRing, g.StandardRing} {
				x, err := f()
				if err != nil {
					panic(err)
				}
				res = append(res, x.N, int(x.Type()), append([]uint64(nil), x.Modulus...)) // a shallow copy
				o := x.NewPoly()
				for i := range o.Coeffs {
					for j := range o.Coeffs[i] {
						o.Coeffs[i][j] = p0.Coeffs[0][j%len(p0.Coeffs[0])] % x.Modulus[i]
					}
				}
				x.NTT(o, o)
				res = append(res, o)
			}
			return res
		})},
		{"secret key", only(l.sk[r.N(2)], func(v interface{}) []interface{} {
			k := v.(*rlwe.SecretKey)
			return append(blob(k.MarshalBinary()), k.CopyNew(), k.GetDataLen(true))
		})},
		{"public key", only(l.pk, func(v interface{}) []interface{} {
			k := v.(*rlwe.PublicKey)
			c := k.CopyNew()
			return append(blob(k.MarshalBinary()), c, k.GetDataLen(true), k.Equals(c), c.Equals(k))
		})},
		{"parameters", only(&l.p, func(v interface{}) []interface{} {
			p := *v.(*ckks.Parameters)
			b, err := p.MarshalJSON()
			q := p.CopyNew()
			return append(blob(p.MarshalBinary()), b, err == nil, p.Equals(q), p.Q(), p.P(), p.QP(), p.QBigInt(), p.PBigInt(), p.QPBigInt(), p.QLvl(mx), p.LogQ(), p.LogP(), p.LogQP(),
				p.Alpha(), p.Beta(), p.MaxSlots(), p.QiFloat64(mx), sorted(p.RotationsForInnerSumLog(1, 4)), sorted(p.RotationsForReplicateLog(1, 4)), sorted(p.RotationsForTrace(0, p.MaxLogSlots())))
		})},
		{"galois elements", only(&l.p, func(v interface{}) []interface{} {
			p := *v.(*ckks.Parameters)
			return []interface{}{p.GaloisElementsForRowInnerSum(), p.InverseGaloisElement(5), p.GaloisElementForColumnRotationBy(3), p.GaloisElementForColumnRotationBy(-3)}
		})},
		{"plaintext element", only(x, func(v interface{}) []interface{} {
			c := v.(*ckks.Ciphertext)
			s, g, same := rlwe.GetSmallestLargest(c.Ciphertext, ct(1).Ciphertext)
			return []interface{}{s.Degree(), g.Degree(), same, c.Level(), c.ScalingFactor()}
		})},
	}
	if l.hasP {
		ops = append(ops,
			objOp{"relinearization key", only(l.rlk, func(v interface{}) []interface{} {
				k := v.(*rlwe.RelinearizationKey)
				c := k.CopyNew()
				return append(blob(k.MarshalBinary()), c, k.GetDataLen(true), k.Equals(c))
			})},
			objOp{"switching key", only(l.swk, func(v interface{}) []interface{} {
				k := v.(*rlwe.SwitchingKey)
				c := k.CopyNew()
				return append(blob(k.MarshalBinary()), c, k.GetDataLen(true), k.Equals(c), k.Equals(l.rlk.Keys[0]))
			})},
			objOp{"rotation keys", only(l.rtks, func(v interface{}) []interface{} {
				k := v.(*rlwe.RotationKeySet)
				_, ok := k.GetRotationKey(5)
				b, err := k.MarshalBinary() // its order is not determined
				return []interface{}{len(b), err == nil, k.GetDataLen(true), k.Equals(k), k.Includes(k), ok}
			})},
			objOp{"basis extension of small polynomials", func() ([]interface{}, []interface{}, func() []interface{}, func(in, out []interface{}) []interface{}) {
				sm := rq.NewPoly()
				for j := range sm.Coeffs[0] {
					v := r.N(3)
					for i, q := range l.p.Q() {
						sm.Coeffs[i][j] = (uint64(v) + q - 1) % q
					}
				}
				lp := r.N(l.p.PCount())
				return []interface{}{sm}, []interface{}{dirty(rq, mx), dirty(l.p.RingP(), lp+r.N(l.p.PCount()-lp))},
					func() []interface{} { return []interface{}{rq.NewPoly(), l.p.RingP().NewPolyLvl(lp)} },
					func(in, out []interface{}) []interface{} {
						o0, o1 := out[0].(*ring.Poly), out[1].(*ring.Poly)
						l.p.RingQP().ExtendBasisSmallNormAndCenter(in[0].(*ring.Poly), lp, o0, o1)
						return []interface{}{rows{o0, mx + 1}, rows{o1, lp + 1}}
					}
			}},
			objOp{"sums over Q and P", func() ([]interface{}, []interface{}, func() []interface{}, func(in, out []interface{}) []interface{}) {
				lp := l.p.PCount() - 1
				qp := func() rlwe.PolyQP { return rlwe.PolyQP{Q: randPoly(r, rq, mx), P: randPoly(r, l.p.RingP(), lp)} }
				k := r.N(18)
				lq, lv := r.N(mx+1), r.N(lp+1)
				g := l.galEl(r)
				idx := make([]uint64, l.p.N())
				for i := range idx {
					idx[i] = (uint64(i)*g + g>>1) % uint64(len(idx))
				}
				fit := func() []interface{} { return []interface{}{l.p.RingQP().NewPolyLvl(lq, lv)} }
				if k >= 12 {
					c.acc, fit = true, nil
				}
				return []interface{}{qp(), qp(), idx}, []interface{}{qp()}, fit,
					func(in, out []interface{}) []interface{} {
						a, b, o := in[0].(rlwe.PolyQP), in[1].(rlwe.PolyQP), out[0].(rlwe.PolyQP)
						g := l.p.RingQP()
						switch k {
						case 0:
							g.AddLvl(lq, lv, a, b, o)
						case 1:
							g.SubLvl(lq, lv, a, b, o)
						case 2:
							g.AddNoModLvl(lq, lv, a, b, o)
						case 3:
							g.NTTLvl(lq, lv, a, o)
						case 4:
							g.InvNTTLvl(lq, lv, a, o)
						case 5:
							g.MFormLvl(lq, lv, a, o)
						case 6:
							g.InvMFormLvl(lq, lv, a, o)
						case 7:
							g.MulCoeffsMontgomeryLvl(lq, lv, a, b, o)
						case 8:
							g.CopyValuesLvl(lq, lv, a, o)
						case 9:
							g.NTTLazyLvl(lq, lv, a, o)
						case 10:
							g.MulCoeffsMontgomeryConstantLvl(lq, lv, a, b, o)
						case 11:
							g.PermuteNTTWithIndexLvl(lq, lv, a, in[2].([]uint64), o)
						case 12:
							g.MulCoeffsMontgomeryConstantAndAddNoModLvl(lq, lv, a, b, o)
						case 13:
							g.MulCoeffsMontgomeryAndSubLvl(lq, lv, a, b, o)
						case 14:
							g.MulCoeffsMontgomeryConstantAndSubNoModLvl(lq, lv, a, b, o)
						case 15:
							g.MulCoeffsMontgomeryAndAddLvl(lq, lv, a, b, o)
						case 16:
							g.MulCoeffsMontgomeryConstantAndAddNoModLvl(lq, lv, a, b, o)
						default:
							g.PermuteNTTWithIndexAndAddNoModLvl(lq, lv, a, in[2].([]uint64), o)
						}
						return []interface{}{rows{o.Q, lq + 1}, rows{o.P, lv + 1}}
					}
			}},
			objOp{"copy of a polynomial over Q and P", func() ([]interface{}, []interface{}, func() []interface{}, func(in, out []interface{}) []interface{}) {
				k := r.N(4)
				qp := func() rlwe.PolyQP {
					return rlwe.PolyQP{Q: randPoly(r, rq, mx), P: randPoly(r, l.p.RingP(), l.p.PCount()-1)}
				}
				return []interface{}{qp()}, []interface{}{qp()}, func() []interface{} { return []interface{}{l.p.RingQP().NewPoly()} },
					func(in, out []interface{}) []interface{} {
						a, o := in[0].(rlwe.PolyQP), out[0].(rlwe.PolyQP)
						switch k {
						case 0:
							o.Copy(a)
						case 1:
							o.CopyValues(a)
						case 2:
							x := a.CopyNew()
							o.Copy(x)
						default:
							b := make([]byte, a.GetDataLen(true))
							n, err := a.WriteTo(b)
							var x rlwe.PolyQP
							n2, err2 := x.DecodePolyNew(b)
							return []interface{}{b, n, err == nil, x, n2, err2 == nil, a.Equals(x)}
						}
						return []interface{}{rows{o.Q, mx + 1}, rows{o.P, l.p.PCount()}, o.Equals(a)}
					}
			}},
		)
	}
	o := ops[r.N(len(ops))]
	c.name = o.name
	var run func(in, out []interface{}) []interface{}
	c.in, c.out, c.fit, run = o.make()
	c.run = func(e interface{}, in, out []interface{}) []interface{} { return run(in, out) }
	c.note = fmt.Sprintf("degree %d level %d", x.Degree(), x.Level())
}

func sorted(v []int) []int {
	sort.Ints(v)
	return v
}
