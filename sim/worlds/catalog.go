package worlds

import (
	"fmt"
	"math"
	"math/big"
	"reflect"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"

	"vsim/core"
	"vsim/lab"
	"vsim/run"
	"vsim/sched"
)

// The catalogue: every engine kind of the library, every way to obtain one, and every call it offers, with drawn
// arguments and receivers. The differential worlds (C01 to C04) are built on it.

// lib is what all callers share.
type lib struct {
	shape lab.Shape
	p     ckks.Parameters
	hasP  bool
	fast  bool
	fp    fckks.Parameters
	fr    frlwe.Parameters
	sk    [2]*rlwe.SecretKey
	pk    *rlwe.PublicKey
	rlk   *rlwe.RelinearizationKey
	rtks  *rlwe.RotationKeySet
	rots  []int
	swk   *rlwe.SwitchingKey
	frlk  *frlwe.RelinKey
	frtk  *frlwe.RotationKey
	fswk  [2]*frlwe.SwitchingKey
	cts   []*ckks.Ciphertext
	pts   []*ckks.Plaintext
	msgs  []interface{}
	crp   *ring.Poly
	skH   *rlwe.SecretKey // over the ring of half the degree
	skL   *rlwe.SecretKey // with fewer moduli
	clean bool            // only well-formed calls
}

// genLib draws what the callers share, and tells whether it lives over one of the largest rings, where calls are slow.
func genLib(p *run.Plan, r *core.RNG, maxLogN, maxQ int, thorough bool) (huge bool) {
	if thorough {
		maxQ += 3
	}
	s := lab.RandShape(r, maxLogN, maxQ, 0, 2)
	if r.P(0.02) {
		s.Long(r)
	} else if r.P(0.015) {
		s.Wide(r, 11)
	}
	if s.NP == 0 && r.P(0.7) {
		s.NP = 1
	}
	if s.NQ == 1 && r.P(0.5) {
		s.NQ = 2
	}
	if huge = r.P(0.0003); huge {
		s.Huge(r)
	}
	f := 0
	if s.CI == 0 && s.NP > 0 && r.P(0.5) {
		f = 1
	}
	s.Put(p)
	p.Set("fast", f)
	p.Set("gamma", 1+r.N(min(s.NQ+s.NP+1, 4)))
	p.Set("tb", max(54, max(s.Q0, s.QB+2))+r.N(3))
	p.Set("tx", 0)
	p.Set("tseed", r.N(1<<20))
	p.Set("objs", 3+r.N(4))
	return
}

// newLib builds what the callers share; inside a step.
func newLib(pl *run.Plan) *lib {
	l := &lib{shape: lab.GetShape(pl)}
	s := l.shape
	l.hasP = s.NP > 0
	l.p = s.CKKS(s.LogN-1, math.Ldexp(1, 30))
	kg := ckks.NewKeyGenerator(l.p)
	l.sk[0], l.pk = kg.GenKeyPair()
	l.sk[1] = kg.GenSecretKey()
	r := core.NewRNG(pl.Seed ^ 0xca7)
	if l.hasP {
		l.rlk = kg.GenRelinearizationKey(l.sk[0], 1+r.W(3, 1, 1))
		l.rots = []int{1, 1 + r.N(l.p.N()/2)}
		l.rtks = kg.GenRotationKeysForRotations(l.rots, s.CI == 0, l.sk[0])
		l.swk = kg.GenSwitchingKey(l.sk[0], l.sk[1])
	}
	if pl.Get("fast") == 1 && l.hasP && s.CI == 0 {
		l.fast = true
		q, p := s.Moduli()
		T := auxModuli(pl, q, p, 1<<uint(s.LogN))
		l.fp = fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: s.LogN, Q: q, P: p, T: T, H: s.H, Sigma: s.SigmaF(), LogSlots: r.N(s.LogN), DefaultScale: 1 << 30, Gamma: pl.Get("gamma")})
		l.fr = frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: s.LogN, Q: q, P: p, T: T, H: s.H, Sigma: s.SigmaF(), Gamma: pl.Get("gamma")})
		fk := frlwe.NewKeyGenerator(l.fr)
		l.frlk = fk.GenRelinKey(l.sk[0])
		l.frtk = fk.GenRotKey(1+r.N(l.p.N()/2), l.sk[0])
		l.fswk = l.frtk.Value
	}
	sched.Pause(func() {
		n := max(2, pl.Get("objs"))
		for i := 0; i < n; i++ {
			l.cts = append(l.cts, l.randCt(r, 1+r.W(4, 1), r.N(l.p.MaxLevel()+1), l.scale(r)))
			pt := &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: randPoly(r, l.p.RingQ(), r.N(l.p.MaxLevel()+1))}, Scale: l.scale(r)}
			pt.Value.IsNTT = true
			l.pts = append(l.pts, pt)
		}
		// one that really encodes something
		pt := &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: l.p.RingQ().NewPoly()}, Scale: 1 << 30}
		for i, q := range l.p.Q() {
			for j := range pt.Value.Coeffs[i] {
				v := core.H(pl.Seed, uint64(j)) % (1 << 34)
				pt.Value.Coeffs[i][j] = v % q
			}
		}
		copyRows(pt.Value.Coeffs, lab.Evals(l.p.RingQ(), pt.Value.Coeffs, false, false))
		pt.Value.IsNTT = true
		l.pts = append(l.pts, pt)
		l.crp = randPoly(r, l.p.RingQ(), l.p.MaxLevel())
		cut := func(p *ring.Poly, n, lvl int) *ring.Poly {
			q := &ring.Poly{IsNTT: true, IsMForm: p.IsMForm}
			for _, c := range p.Coeffs[:lvl+1] {
				q.Coeffs = append(q.Coeffs, append([]uint64(nil), c[:n]...))
			}
			return q
		}
		if l.hasP {
			v, mp := l.sk[1].Value, l.p.PCount()-1
			l.skH = &rlwe.SecretKey{Value: rlwe.PolyQP{Q: cut(v.Q, l.p.N()/2, l.p.MaxLevel()), P: cut(v.P, l.p.N()/2, mp)}}
			l.skL = &rlwe.SecretKey{Value: rlwe.PolyQP{Q: cut(v.Q, l.p.N(), r.N(l.p.MaxLevel()+1)), P: cut(v.P, l.p.N(), r.N(mp+1))}}
		}
		for i := 0; i < 4; i++ {
			l.msgs = append(l.msgs, l.values(r, r.N(l.p.MaxLogSlots()+1)))
		}
	})
	return l
}

func (l *lib) scale(r *core.RNG) float64 {
	switch r.N(4) {
	case 0:
		return 1 << 30
	case 1:
		return math.Ldexp(1, 20+r.N(20))
	case 2:
		return math.Ldexp(float64(1+r.N(9)), 28)
	}
	return math.Ldexp(1+r.F(), 20+r.N(20))
}

func (l *lib) randCt(r *core.RNG, deg, lvl int, scale float64) *ckks.Ciphertext {
	ct := &ckks.Ciphertext{Ciphertext: &rlwe.Ciphertext{}, Scale: scale}
	for i := 0; i <= deg; i++ {
		v := randPoly(r, l.p.RingQ(), lvl)
		v.IsNTT = true
		ct.Value = append(ct.Value, v)
	}
	return ct
}

// values draws a vector to encode.
func (l *lib) values(r *core.RNG, logSlots int) interface{} {
	n := 1 << uint(logSlots)
	if r.P(0.3) {
		n = 1 + r.N(n)
	}
	if r.P(0.3) {
		v := make([]float64, n)
		for i := range v {
			v[i] = 2*r.F() - 1
		}
		return v
	}
	v := make([]complex128, n)
	for i := range v {
		v[i] = complex(2*r.F()-1, 2*r.F()-1)
	}
	return v
}

// shared digests everything the callers share, as a caller can observe it.
func (l *lib) shared() (h uint64) {
	h = dig(&l.p, true)
	h = core.H(h, dig(l.sk[0], true), dig(l.sk[1], true), dig(l.pk, true))
	if l.hasP {
		h = core.H(h, dig(l.rlk, true), dig(l.rtks, true), dig(l.swk, true), dig(l.skH, true), dig(l.skL, true))
	}
	if l.fast {
		h = core.H(h, digV(l.frlk), digV(l.frtk))
	}
	for _, c := range l.cts {
		h = core.H(h, digV(c))
	}
	for _, c := range l.pts {
		h = core.H(h, digV(c))
	}
	for _, m := range l.msgs {
		h = core.H(h, digV(m))
	}
	return core.H(h, digV(l.crp))
}

// rows is the part of a polynomial that a low-level call writes.
type rows struct {
	p *ring.Poly
	n int
}

// digV digests any argument or result.
func digV(v interface{}) uint64 {
	switch v := v.(type) {
	case nil:
		return 0x11
	case rows:
		return digPoly(21, &ring.Poly{Coeffs: v.p.Coeffs[:v.n]}, false)
	case *ckks.Plaintext:
		return core.H(22, digPoly(0, v.Value, true), math.Float64bits(v.Scale))
	case *rlwe.Plaintext:
		return core.H(23, digPoly(0, v.Value, true))
	case rlwe.PolyQP:
		return digQP(24, v, true)
	case []rlwe.PolyQP:
		h := uint64(25)
		for _, x := range v {
			h = digQP(h, x, true)
		}
		return h
	case []complex128:
		h := core.H(26, uint64(len(v)))
		for _, x := range v {
			h = core.H(h, math.Float64bits(real(x)), math.Float64bits(imag(x)))
		}
		return h
	case []float64:
		h := core.H(27, uint64(len(v)))
		for _, x := range v {
			h = core.H(h, math.Float64bits(x))
		}
		return h
	case float64:
		return core.H(28, math.Float64bits(v))
	case []*ring.Complex:
		h := core.H(29, uint64(len(v)))
		for _, x := range v {
			for k := 0; k < 2; k++ {
				if x[k] == nil {
					h = core.H(h, 3)
				} else {
					h = core.H(h, core.HS(x[k].Text('p', 0)), uint64(x[k].Prec()))
				}
			}
		}
		return h
	case *fckks.Message:
		return core.H(30, digV(v.Value))
	case *frlwe.SwitchingKey:
		h := uint64(31)
		for _, r := range v.Value {
			for _, x := range r {
				h = digPoly(h, x, true)
			}
		}
		return h
	case *frlwe.RelinKey:
		return core.H(32, digV(v.Value[0]), digV(v.Value[1]))
	case *frlwe.RotationKey:
		return core.H(33, digV(v.Value[0]), digV(v.Value[1]), v.Rotidx)
	case []byte:
		return HB(v)
	case []*big.Int:
		h := core.H(36, uint64(len(v)))
		for _, x := range v {
			h = core.H(h, core.HS(x.String()))
		}
		return h
	case *big.Int:
		return core.H(37, core.HS(v.String()))
	case []uint64:
		h := core.H(38, uint64(len(v)))
		for _, x := range v {
			h = core.H(h, x)
		}
		return h
	case []int64:
		h := core.H(39, uint64(len(v)))
		for _, x := range v {
			h = core.H(h, uint64(x))
		}
		return h
	case []string:
		h := core.H(40, uint64(len(v)))
		for _, x := range v {
			h = core.H(h, core.HS(x))
		}
		return h
	case bool:
		return core.H(41, uint64(b2i(v)))
	case int:
		return core.H(42, uint64(v))
	case uint64:
		return core.H(43, v)
	case []int:
		h := core.H(35, uint64(len(v)))
		for _, x := range v {
			h = core.H(h, uint64(x))
		}
		return h
	case error:
		return 34
	}
	return dig(v, true)
}

// cloneV copies an argument so that a call may write to it.
func cloneV(v interface{}) interface{} {
	poly := func(p *ring.Poly) *ring.Poly {
		if p == nil {
			return nil
		}
		q := &ring.Poly{IsNTT: p.IsNTT, IsMForm: p.IsMForm}
		for _, c := range p.Coeffs {
			q.Coeffs = append(q.Coeffs, append([]uint64(nil), c...))
		}
		return q
	}
	switch v := v.(type) {
	case nil:
		return nil
	case *ckks.Ciphertext:
		c := &ckks.Ciphertext{Ciphertext: &rlwe.Ciphertext{}, Scale: v.Scale}
		for _, x := range v.Value {
			c.Value = append(c.Value, poly(x))
		}
		return c
	case *rlwe.Ciphertext:
		c := &rlwe.Ciphertext{}
		for _, x := range v.Value {
			c.Value = append(c.Value, poly(x))
		}
		return c
	case *ckks.Plaintext:
		return &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: poly(v.Value)}, Scale: v.Scale}
	case *rlwe.Plaintext:
		return &rlwe.Plaintext{Value: poly(v.Value)}
	case *ring.Poly:
		return poly(v)
	case rlwe.PolyQP:
		return rlwe.PolyQP{Q: poly(v.Q), P: poly(v.P)}
	case []rlwe.PolyQP:
		var r []rlwe.PolyQP
		for _, x := range v {
			r = append(r, rlwe.PolyQP{Q: poly(x.Q), P: poly(x.P)})
		}
		return r
	case []complex128:
		return append([]complex128(nil), v...)
	case []float64:
		return append([]float64(nil), v...)
	case []*ring.Complex:
		var r []*ring.Complex
		for _, x := range v {
			r = append(r, x.Copy())
		}
		return r
	case []*big.Int:
		var r []*big.Int
		for _, x := range v {
			r = append(r, new(big.Int).Set(x))
		}
		return r
	case *fckks.Message:
		return &fckks.Message{Value: append([]complex128(nil), v.Value...)}
	}
	return v // keys and numbers are never receivers
}

func cloneAll(v []interface{}) []interface{} {
	if v == nil {
		return nil
	}
	res := make([]interface{}, len(v))
	for i := range v {
		res[i] = cloneV(v[i])
	}
	return res
}

func digAll(v []interface{}) (h uint64) {
	for _, x := range v {
		h = core.H(h, digV(x))
	}
	return
}

// ccall is one drawn call.
type ccall struct {
	kind, name string
	rnd        bool          // the result depends on fresh randomness
	acc        bool          // the receivers' old content is an input
	in, out    []interface{} // read, written; out may be nil
	fit        func() []interface{}
	alias      []int // inputs the first receiver may be the same object as
	run        func(e interface{}, in, out []interface{}) []interface{}
	note       string
	// valid checks the results of a randomised call (nil if there is no such check)
	valid   func(res []interface{}) string
	creates bool // called without a receiver, it creates one
	exact   bool // the receiver must have the result's size
	grows   bool // the receiver's degree may grow
}

// engine kinds, those of the fast scheme last.
var engKinds = []string{"ev", "ecd", "big", "enc", "renc", "dec", "rdec", "ks", "be", "dcp", "kg", "samp", "scaler", "fev", "fks", "fenc", "fdec", "fkg", "rng", "obj"}
var engWeights = []int{10, 6, 2, 3, 2, 2, 2, 5, 3, 2, 3, 1, 1, 5, 3, 2, 2, 2, 4, 2}

func (l *lib) hasEng(kind string) bool {
	switch kind {
	case "big":
		return l.shape.CI == 0
	case "ks", "be", "dcp", "scaler":
		return l.hasP
	case "fev", "fks", "fenc", "fdec", "fkg":
		return l.fast
	}
	return true
}

// encFam is a family of encryptors: one for the secret key, one for the public key.
type encFam struct{ pk, sk ckks.Encryptor }
type rencFam struct{ pk, sk rlwe.Encryptor }
type sampFam struct {
	uni *ring.UniformSampler
	gau *ring.GaussianSampler
	ter [2]*ring.TernarySampler
}
type scalerFam struct {
	rns *ring.RNSScaler
	sim *ring.SimpleScaler
}

// engHows names the ways to obtain an engine.
var engHows = []string{"new", "copy", "copy of a copy", "re-keyed"}

// build makes an engine; base is an engine of the kind (nil: none) it may be copied from. Inside a step.
func (l *lib) build(kind string, base interface{}, how int) interface{} {
	if base == nil {
		how = 0
	}
	p := l.p
	switch kind {
	case "ev":
		return ckks.NewEvaluator(p, rlwe.EvaluationKey{Rlk: l.rlk, Rtks: l.rtks})
	case "ecd":
		switch how {
		case 0:
			return ckks.NewEncoder(p)
		case 1:
			return base.(ckks.Encoder).ShallowCopy()
		}
		return base.(ckks.Encoder).ShallowCopy().ShallowCopy()
	case "big":
		switch how {
		case 0:
			return ckks.NewEncoderBigComplex(p, 80)
		case 1:
			return base.(ckks.EncoderBigComplex).ShallowCopy()
		}
		return base.(ckks.EncoderBigComplex).ShallowCopy().ShallowCopy()
	case "enc":
		switch how {
		case 0:
			return &encFam{ckks.NewEncryptor(p, l.pk), ckks.NewEncryptor(p, l.sk[0])}
		case 1:
			b := base.(*encFam)
			return &encFam{b.pk.ShallowCopy(), b.sk.ShallowCopy()}
		case 2:
			b := base.(*encFam)
			return &encFam{b.pk.ShallowCopy().ShallowCopy(), b.sk.ShallowCopy().ShallowCopy()}
		}
		b := base.(*encFam)
		return &encFam{b.sk.WithKey(l.pk), b.pk.WithKey(l.sk[0])}
	case "renc":
		switch how {
		case 0:
			return &rencFam{rlwe.NewEncryptor(p.Parameters, l.pk), rlwe.NewEncryptor(p.Parameters, l.sk[0])}
		case 1:
			b := base.(*rencFam)
			return &rencFam{b.pk.ShallowCopy(), b.sk.ShallowCopy()}
		case 2:
			b := base.(*rencFam)
			return &rencFam{b.pk.ShallowCopy().ShallowCopy(), b.sk.ShallowCopy().ShallowCopy()}
		}
		b := base.(*rencFam)
		return &rencFam{b.sk.WithKey(l.pk), b.pk.WithKey(l.sk[0])}
	case "dec":
		switch how {
		case 0:
			return ckks.NewDecryptor(p, l.sk[0])
		case 1:
			return base.(ckks.Decryptor).ShallowCopy()
		case 2:
			return base.(ckks.Decryptor).ShallowCopy().ShallowCopy()
		}
		return base.(ckks.Decryptor).WithKey(l.sk[1]).WithKey(l.sk[0])
	case "rdec":
		switch how {
		case 0:
			return rlwe.NewDecryptor(p.Parameters, l.sk[0])
		case 1:
			return base.(rlwe.Decryptor).ShallowCopy()
		case 2:
			return base.(rlwe.Decryptor).ShallowCopy().ShallowCopy()
		}
		return base.(rlwe.Decryptor).WithKey(l.sk[1]).WithKey(l.sk[0])
	case "ks":
		switch how {
		case 0:
			return rlwe.NewKeySwitcher(p.Parameters)
		case 1:
			return base.(*rlwe.KeySwitcher).ShallowCopy()
		}
		return base.(*rlwe.KeySwitcher).ShallowCopy().ShallowCopy()
	case "be":
		switch how {
		case 0:
			return ring.NewBasisExtender(p.RingQ(), p.RingP())
		case 1:
			return base.(*ring.BasisExtender).ShallowCopy()
		}
		return base.(*ring.BasisExtender).ShallowCopy().ShallowCopy()
	case "dcp":
		if how == 0 {
			return ring.NewDecomposer(p.RingQ(), p.RingP())
		}
		return base // read-only tables: one may serve all callers, as the copies of a key switcher do
	case "kg":
		return ckks.NewKeyGenerator(p)
	case "samp":
		f := &sampFam{}
		k := []byte{1, 2, 3, byte(how)}
		pr := func(x byte) utils.PRNG {
			g, err := utils.NewKeyedPRNG(append(k, x))
			if err != nil {
				panic(err)
			}
			return g
		}
		f.uni = ring.NewUniformSampler(pr(1), p.RingQ())
		f.gau = ring.NewGaussianSampler(pr(2), p.RingQ(), 3.2, 19)
		f.ter[0] = ring.NewTernarySampler(pr(3), p.RingQ(), 1.0/3, how == 1)
		f.ter[1] = ring.NewTernarySamplerWithHammingWeight(pr(4), p.RingQ(), 1+p.N()/3, how == 2)
		return f
	case "scaler":
		rT, err := ring.NewRing(p.N(), p.P()[:1])
		if err != nil {
			panic(err)
		}
		return &scalerFam{ring.NewRNSScaler(p.RingQ(), rT), ring.NewSimpleScaler(65537, p.RingQ())}
	case "fev":
		return fckks.NewEvaluator(l.fp)
	case "fks":
		return frlwe.NewKeySwitcher(l.fr)
	case "fenc":
		return fckks.NewEncryptor(l.fp, l.pk)
	case "fdec":
		return fckks.NewDecryptor(l.fp, l.sk[0])
	case "fkg":
		return frlwe.NewKeyGenerator(l.fr)
	case "rng":
		return &ringFam{l.p.RingQ(), l.p.RingP()} // the shared rings themselves
	case "obj":
		return l
	}
	run.Fail("engine %s", kind)
	return nil
}

// recv draws a ciphertext receiver for a result of a degree and level; nil asks for the creating variant.
func (l *lib) recv(r *core.RNG, op string, deg, lvl int) *ckks.Ciphertext {
	if r.P(0.3) && !needsOut(op) {
		return nil
	}
	mx := l.p.MaxLevel()
	switch r.N(6) {
	case 0:
		return ckks.NewCiphertext(l.p, deg, lvl, 1)
	case 1, 2:
		return l.randCt(r, deg, lvl, l.scale(r))
	case 3:
		return l.randCt(r, deg+r.N(2), lvl, l.scale(r))
	}
	return l.randCt(r, deg+r.W(3, 1), lvl+r.N(mx-lvl+1), l.scale(r))
}

func (l *lib) fitCt(deg, lvl int) func() []interface{} {
	return func() []interface{} { return []interface{}{ckks.NewCiphertext(l.p, deg, lvl, 1)} }
}

var catEvOps = []string{"add", "sub", "addnomod", "subnomod", "neg", "addconst", "mulconst", "mulgauss", "mulconstadd", "mulgaussadd",
	"multi", "divi", "mulpow2", "conj", "rotate", "switchkeys", "mul", "mulrelin", "mulandadd", "mulrelinandadd", "relin", "scaleup", "setscale",
	"rescale", "droplevel", "reduce", "hoist"}

var needsKeys = map[string]bool{"conj": true, "rotate": true, "switchkeys": true, "mulrelin": true, "mulrelinandadd": true, "relin": true, "hoist": true}

func (l *lib) constant(r *core.RNG) interface{} {
	switch r.N(6) {
	case 0:
		return uint64(r.N(1 << 20))
	case 1:
		return int64(r.N(1<<20)) - 1<<19
	case 2:
		return int(r.N(1<<20)) - 1<<19
	case 3:
		return float64(r.N(100))
	case 4:
		return 2*r.F() - 1
	}
	return complex(2*r.F()-1, float64(r.N(4)))
}

// call draws a call on an engine kind.
func (l *lib) call(kind string, r *core.RNG) *ccall {
	c := &ccall{kind: kind}
	rp := l.p.Parameters
	rq := l.p.RingQ()
	mx := l.p.MaxLevel()
	// ct picks a shared ciphertext of degree at most d
	ct := func(d int) *ckks.Ciphertext {
		for i, k := 0, r.N(len(l.cts)); i < len(l.cts); i++ {
			if x := l.cts[(i+k)%len(l.cts)]; x.Degree() <= d {
				return x
			}
		}
		return l.randCt(r, 1, r.N(mx+1), 1<<30)
	}
	pt := func() *ckks.Plaintext {
		x := l.pts[r.N(len(l.pts))]
		if (kind == "ecd" || kind == "big") && r.P(0.2) {
			// encoders also read plaintexts in the coefficient domain
			v := randPoly(r, rq, x.Level())
			v.IsNTT = false
			return &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: v}, Scale: x.Scale}
		}
		return x
	}
	dirty := func(rg *ring.Ring, lvl int) *ring.Poly {
		p := randPoly(r, rg, lvl)
		p.IsNTT = r.P(0.5)
		return p
	}
	bad := !l.clean && r.P(0.08)
	switch kind {
	case "ev":
		op := catEvOps[r.N(len(catEvOps))]
		if needsKeys[op] && !l.hasP && r.P(0.9) {
			op = "mul"
		}
		l.evCatalog(c, r, op, ct, pt, bad)
	case "ecd":
		l.ecdCatalog(c, r, pt, bad)
	case "big":
		ls := r.N(l.shape.LogN)
		vals := make([]*ring.Complex, 1<<uint(ls))
		for i := range vals {
			vals[i] = ring.NewComplex(big.NewFloat(2*r.F()-1).SetPrec(80), big.NewFloat(2*r.F()-1).SetPrec(80))
		}
		lvl, sc := r.N(mx+1), l.scale(r)
		if bad {
			vals = vals[:len(vals)-1]
		}
		switch r.N(5) {
		case 0:
			c.name = "Encode"
			c.in = []interface{}{vals}
			v := randPoly(r, rq, lvl)
			v.IsNTT = r.P(0.5)
			c.out = []interface{}{&ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: v}, Scale: sc}}
			c.fit = func() []interface{} { return []interface{}{ckks.NewPlaintext(l.p, lvl, sc)} }
			c.run = func(e interface{}, in, out []interface{}) []interface{} {
				e.(ckks.EncoderBigComplex).Encode(in[0].([]*ring.Complex), out[0].(*ckks.Plaintext), ls)
				return out
			}
		case 1:
			c.name = "EncodeNew"
			c.in = []interface{}{vals}
			c.run = func(e interface{}, in, out []interface{}) []interface{} {
				return []interface{}{e.(ckks.EncoderBigComplex).EncodeNew(in[0].([]*ring.Complex), lvl, sc, ls)}
			}
		case 2, 3:
			c.name = "Decode"
			c.in = []interface{}{pt()}
			if bad {
				ls = l.shape.LogN + 1
			}
			if r.P(0.2) {
				c.name, c.rnd = "DecodePublic", true
			}
			rnd := c.rnd
			c.run = func(e interface{}, in, out []interface{}) []interface{} {
				if rnd {
					return []interface{}{e.(ckks.EncoderBigComplex).DecodePublic(in[0].(*ckks.Plaintext), ls, 3.2)}
				}
				return []interface{}{e.(ckks.EncoderBigComplex).Decode(in[0].(*ckks.Plaintext), ls)}
			}
		default:
			c.name = "FFT"
			vals = vals[:cap(vals)]
			inv := r.P(0.5)
			if inv {
				c.name = "InvFFT"
			}
			c.out, c.acc = []interface{}{vals}, true
			c.run = func(e interface{}, in, out []interface{}) []interface{} {
				v := out[0].([]*ring.Complex)
				if inv {
					e.(ckks.EncoderBigComplex).InvFFT(v, len(v))
				} else {
					e.(ckks.EncoderBigComplex).FFT(v, len(v))
				}
				return out
			}
		}
		c.note = fmt.Sprintf("2^%d slots, level %d, scale %v", ls, lvl, sc)
	case "enc":
		c.rnd = true
		x := pt()
		pk := r.P(0.5)
		c.in = []interface{}{x}
		crp := !pk && r.P(0.4) || bad
		if crp {
			c.in = append(c.in, &ring.Poly{Coeffs: l.crp.Coeffs[:x.Level()+1]})
		}
		eng := func(e interface{}) ckks.Encryptor {
			if pk {
				return e.(*encFam).pk
			}
			return e.(*encFam).sk
		}
		c.name = fmt.Sprintf("Encrypt (public key %v, crp %v)", pk, crp)
		if r.P(0.3) {
			c.name += " new"
			c.run = func(e interface{}, in, out []interface{}) []interface{} {
				if crp {
					return []interface{}{eng(e).EncryptFromCRPNew(in[0].(*ckks.Plaintext), in[1].(*ring.Poly))}
				}
				return []interface{}{eng(e).EncryptNew(in[0].(*ckks.Plaintext))}
			}
		} else {
			lvl := x.Level()
			if r.P(0.3) && !crp {
				lvl = r.N(mx + 1)
			}
			o := l.randCt(r, 1+r.W(3, 1), lvl, l.scale(r))
			ntt := r.P(0.8)
			for _, v := range o.Value {
				v.IsNTT = ntt
			}
			c.out = []interface{}{o}
			c.fit = func() []interface{} {
				f := ckks.NewCiphertext(l.p, 1, min(lvl, x.Level()), 1)
				for _, v := range f.Value {
					v.IsNTT = ntt
				}
				return []interface{}{f}
			}
			c.run = func(e interface{}, in, out []interface{}) []interface{} {
				if crp {
					eng(e).EncryptFromCRP(in[0].(*ckks.Plaintext), in[1].(*ring.Poly), out[0].(*ckks.Ciphertext))
				} else {
					eng(e).Encrypt(in[0].(*ckks.Plaintext), out[0].(*ckks.Ciphertext))
				}
				return out
			}
		}
		c.valid = func(res []interface{}) string {
			o := res[0].(*ckks.Ciphertext)
			if o.Scale != x.Scale {
				return fmt.Sprintf("scale %v, not %v", o.Scale, x.Scale)
			}
			if crp {
				want := lab.Evals(rq, l.crp.Coeffs[:x.Level()+1], true, false)
				if !rowsEqual(lab.Evals(rq, o.Value[1].Coeffs, true, false), want) && o.Value[1].IsNTT {
					return "the common reference polynomial is not in it"
				}
			}
			return l.fresh(o.Ciphertext, x.Value, pk)
		}
	case "renc":
		c.rnd = true
		x := &rlwe.Plaintext{Value: randPoly(r, rq, r.N(mx+1))}
		x.Value.IsNTT = r.P(0.5)
		pk := r.P(0.5)
		c.in = []interface{}{x}
		lvl := r.N(mx + 1)
		o := l.randCt(r, 1+r.W(3, 1), lvl, 1).Ciphertext
		ntt := r.P(0.5)
		for _, v := range o.Value {
			v.IsNTT = ntt
		}
		c.out = []interface{}{o}
		c.name = fmt.Sprintf("rlwe Encrypt (public key %v, NTT %v into %v)", pk, x.Value.IsNTT, ntt)
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			en := e.(*rencFam).sk
			if pk {
				en = e.(*rencFam).pk
			}
			en.Encrypt(in[0].(*rlwe.Plaintext), out[0].(*rlwe.Ciphertext))
			return out
		}
		c.valid = func(res []interface{}) string { return l.fresh(res[0].(*rlwe.Ciphertext), x.Value, pk) }
	case "dec":
		x := ct(2)
		c.in = []interface{}{x}
		if r.P(0.4) {
			c.name = "DecryptNew"
			c.run = func(e interface{}, in, out []interface{}) []interface{} {
				return []interface{}{e.(ckks.Decryptor).DecryptNew(in[0].(*ckks.Ciphertext))}
			}
		} else {
			c.name = "Decrypt"
			lvl := x.Level() + r.N(mx-x.Level()+1)
			if r.P(0.2) {
				lvl = r.N(mx + 1)
			}
			o := &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: dirty(rq, lvl)}, Scale: 3}
			ntt := o.Value.IsNTT
			c.out = []interface{}{o}
			c.fit = func() []interface{} {
				f := ckks.NewPlaintext(l.p, min(lvl, x.Level()), 1)
				f.Value.IsNTT = ntt
				return []interface{}{f}
			}
			c.run = func(e interface{}, in, out []interface{}) []interface{} {
				e.(ckks.Decryptor).Decrypt(in[0].(*ckks.Ciphertext), out[0].(*ckks.Plaintext))
				return out
			}
		}
	case "rdec":
		x := l.randCt(r, 1+r.N(3), r.N(mx+1), 1).Ciphertext
		ntt := r.P(0.5)
		for _, v := range x.Value {
			v.IsNTT = ntt
		}
		c.in = []interface{}{x}
		lvl := r.N(mx + 1)
		o := &rlwe.Plaintext{Value: dirty(rq, lvl)}
		ontt := o.Value.IsNTT
		c.name = fmt.Sprintf("rlwe Decrypt (degree %d, NTT %v into %v)", x.Degree(), ntt, ontt)
		c.out = []interface{}{o}
		c.fit = func() []interface{} {
			f := rlwe.NewPlaintext(rp, min(lvl, x.Level()))
			f.Value.IsNTT = ontt
			return []interface{}{f}
		}
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			e.(rlwe.Decryptor).Decrypt(in[0].(*rlwe.Ciphertext), out[0].(*rlwe.Plaintext))
			return out
		}
	case "ks":
		l.ksCatalog(c, r, dirty)
	case "be":
		lq, lp := r.N(mx+1), r.N(rp.PCount())
		q, p := randPoly(r, rq, lq+r.N(mx-lq+1)), randPoly(r, rp.RingP(), lp+r.N(rp.PCount()-lp))
		oq, op := dirty(rq, lq+r.N(mx-lq+1)), dirty(rp.RingP(), lp+r.N(rp.PCount()-lp))
		zq := func() []interface{} { return []interface{}{rq.NewPolyLvl(lq)} }
		zp := func() []interface{} { return []interface{}{rp.RingP().NewPolyLvl(lp)} }
		k := r.N(5)
		c.name = []string{"ModUpQtoP", "ModUpPtoQ", "ModDownQPtoQ", "ModDownQPtoQNTT", "ModDownQPtoP"}[k]
		switch k {
		case 0:
			c.in, c.out, c.fit = []interface{}{q}, []interface{}{op}, zp
		case 1:
			c.in, c.out, c.fit = []interface{}{p}, []interface{}{oq}, zq
		case 2, 3:
			c.in, c.out, c.fit, c.alias = []interface{}{q, p}, []interface{}{oq}, zq, []int{0}
		case 4:
			c.in, c.out, c.fit, c.alias = []interface{}{q, p}, []interface{}{op}, zp, []int{1}
		}
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			b := e.(*ring.BasisExtender)
			x, o := in[0].(*ring.Poly), out[0].(*ring.Poly)
			switch k {
			case 0:
				b.ModUpQtoP(lq, lp, x, o)
				return []interface{}{rows{o, lp + 1}}
			case 1:
				b.ModUpPtoQ(lp, lq, x, o)
			case 2:
				b.ModDownQPtoQ(lq, lp, x, in[1].(*ring.Poly), o)
			case 3:
				b.ModDownQPtoQNTT(lq, lp, x, in[1].(*ring.Poly), o)
			case 4:
				b.ModDownQPtoP(lq, lp, x, in[1].(*ring.Poly), o)
				return []interface{}{rows{o, lp + 1}}
			}
			return []interface{}{rows{o, lq + 1}}
		}
		c.note = fmt.Sprintf("levels %d and %d", lq, lp)
	case "dcp":
		lq, lp := r.N(mx+1), rp.PCount()-1
		beta := r.N((lq + lp + 1) / (lp + 1))
		x := randPoly(r, rq, lq)
		c.name = "DecomposeAndSplit"
		c.in = []interface{}{x}
		c.out = []interface{}{dirty(rq, lq), dirty(rp.RingP(), lp)}
		c.fit = func() []interface{} { return []interface{}{rq.NewPolyLvl(lq), rp.RingP().NewPolyLvl(lp)} }
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			o0, o1 := out[0].(*ring.Poly), out[1].(*ring.Poly)
			e.(*ring.Decomposer).DecomposeAndSplit(lq, lp, lp+1, beta, in[0].(*ring.Poly), o0, o1)
			return []interface{}{rows{o0, lq + 1}, rows{o1, lp + 1}}
		}
		c.note = fmt.Sprintf("levels %d and %d, digit %d", lq, lp, beta)
	case "kg":
		c.rnd = true
		s := l.sk[r.N(2)]
		c.in = []interface{}{s}
		k := r.W(2, 2, 2, 2, 2, 2, 1, 1, 1, 2, 1, 1, 2)
		hw := 1 + r.N(l.p.N())
		g := l.galEl(r)
		names := []string{"GenSecretKey", "GenSecretKeyGaussian", "GenSecretKeyWithHammingWeight", "GenPublicKey", "GenSwitchingKey", "GenSwitchingKeyForGalois", "GenRelinearizationKey",
			"GenSecretKeyWithDistrib", "GenKeyPair", "GenRotationKeysForRotations", "GenSwitchingKeyForRotationBy", "GenSwitchingKeysForRingSwap", "GenSwitchingKey (other ring)"}
		if k > 3 && k != 7 && k != 8 && !l.hasP || k == 11 && l.shape.CI == 1 {
			k = 0
		}
		c.name = names[k]
		switch k {
		case 4:
			c.in = append(c.in, l.sk[1])
		case 11:
			c.in = append(c.in, l.skH)
		case 12:
			// from or to a smaller ring, to a shorter chain, or from one
			c.in = [][]interface{}{{l.skH, s}, {s, l.skH}, {s, l.skL}, {l.skL, s}}[r.N(4)]
		}
		dist := []float64{0.5, 1. / 3, 0.25}[r.N(3)]
		deg := 1 + r.N(3)
		ks := []int{1 + r.N(l.p.N()), -1 - r.N(l.p.N()), 1 << uint(r.N(l.p.LogN()))}[:1+r.N(3)]
		conj := l.shape.CI == 0 && r.P(0.5)
		if bad {
			hw = -1
		}
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			kg := e.(ckks.KeyGenerator)
			s := in[0].(*rlwe.SecretKey)
			switch k {
			case 0:
				return []interface{}{kg.GenSecretKey()}
			case 1:
				return []interface{}{kg.GenSecretKeyGaussian()}
			case 2:
				return []interface{}{kg.GenSecretKeyWithHammingWeight(hw)}
			case 3:
				return []interface{}{kg.GenPublicKey(s)}
			case 4, 12:
				return []interface{}{kg.GenSwitchingKey(s, in[1].(*rlwe.SecretKey))}
			case 5:
				return []interface{}{kg.GenSwitchingKeyForGalois(g, s)}
			case 7:
				return []interface{}{kg.GenSecretKeyWithDistrib(dist)}
			case 8:
				a, b := kg.GenKeyPair()
				return []interface{}{a, b}
			case 9:
				return []interface{}{kg.GenRotationKeysForRotations(ks, conj, s)}
			case 10:
				return []interface{}{kg.GenSwitchingKeyForRotationBy(ks[0], s)}
			case 11:
				a, b := kg.GenSwitchingKeysForRingSwap(s, in[1].(*rlwe.SecretKey))
				return []interface{}{a, b}
			}
			return []interface{}{kg.GenRelinearizationKey(s, deg)}
		}
	case "samp":
		c.rnd = true
		lvl := r.N(mx + 1)
		k := r.N(5)
		c.name = []string{"uniform", "gaussian", "gaussian add", "ternary", "ternary of fixed weight"}[k]
		c.out, c.acc = []interface{}{randPoly(r, rq, mx)}, true
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			f, o := e.(*sampFam), out[0].(*ring.Poly)
			switch k {
			case 0:
				f.uni.ReadLvl(lvl, o)
			case 1:
				f.gau.ReadLvl(lvl, o)
			case 2:
				f.gau.ReadAndAddLvl(lvl, o)
			default:
				f.ter[k-3].ReadLvl(lvl, o)
			}
			return out
		}
	case "scaler":
		x := randPoly(r, rq, mx)
		c.in = []interface{}{x}
		k := r.N(2)
		if k == 0 {
			c.name = "RNSScaler"
			c.out = []interface{}{dirty(rp.RingP(), 0)}
			c.fit = func() []interface{} { return []interface{}{rp.RingP().NewPolyLvl(0)} }
		} else {
			c.name = "SimpleScaler"
			o := randPoly(r, rq, 0)
			c.out = []interface{}{o}
			c.fit = func() []interface{} { return []interface{}{rq.NewPolyLvl(0)} }
		}
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			o := out[0].(*ring.Poly)
			if k == 0 {
				e.(*scalerFam).rns.DivByQOverTRounded(in[0].(*ring.Poly), o)
			} else {
				e.(*scalerFam).sim.DivByQOverTRounded(in[0].(*ring.Poly), o)
			}
			return []interface{}{rows{o, len(o.Coeffs)}}
		}
	case "rng":
		l.ringCatalog(c, r)
	case "obj":
		l.objCatalog(c, r, ct, pt, dirty)
	case "fev":
		l.fevCatalog(c, r, ct, pt, bad)
	case "fks":
		lvl := r.N(mx + 1)
		x := randPoly(r, rq, lvl)
		x.IsNTT = bad
		c.name = "SwitchKey"
		c.in = []interface{}{x, l.frlk.Value[0], l.frlk.Value[1]}
		c.out = []interface{}{dirty(rq, lvl+r.N(mx-lvl+1)), dirty(rq, lvl+r.N(mx-lvl+1))}
		c.fit = func() []interface{} { return []interface{}{rq.NewPolyLvl(lvl), rq.NewPolyLvl(lvl)} }
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			o0, o1 := out[0].(*ring.Poly), out[1].(*ring.Poly)
			e.(*frlwe.KeySwitcher).SwitchKey(lvl, in[0].(*ring.Poly), in[1].(*frlwe.SwitchingKey), in[2].(*frlwe.SwitchingKey), o0, o1)
			return []interface{}{rows{o0, lvl + 1}, rows{o1, lvl + 1}}
		}
		c.note = fmt.Sprintf("level %d", lvl)
	case "fenc":
		c.rnd = true
		slots := l.fp.Slots()
		m := fckks.NewMessage(l.fp)
		for i := range m.Value {
			m.Value[i] = complex(2*r.F()-1, 2*r.F()-1)
		}
		if bad {
			m.Value = make([]complex128, 2*slots)
		}
		x := pt()
		k := r.N(3)
		c.name = []string{"Encrypt", "EncryptMsg", "EncryptMsgNew"}[k]
		o := l.randCt(r, 1+r.W(3, 1), r.N(mx+1), l.scale(r))
		if k == 0 {
			c.in = []interface{}{x}
		} else {
			c.in = []interface{}{m}
		}
		if k < 2 {
			c.out = []interface{}{o}
		}
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			en := e.(*fckks.Encryptor)
			switch k {
			case 0:
				en.Encrypt(in[0].(*ckks.Plaintext), out[0].(*ckks.Ciphertext))
				return out
			case 1:
				en.EncryptMsg(in[0].(*fckks.Message), out[0].(*ckks.Ciphertext))
				return out
			}
			return []interface{}{en.EncryptMsgNew(in[0].(*fckks.Message))}
		}
		c.valid = func(res []interface{}) string {
			o := res[0].(*ckks.Ciphertext)
			if k == 0 {
				if o.Scale != x.Scale {
					return "scale"
				}
				return l.fresh(o.Ciphertext, x.Value, true)
			}
			if o.Scale != l.fp.DefaultScale() {
				return "scale"
			}
			var want *ckks.Plaintext
			sched.Pause(func() {
				want = ckks.NewEncoder(l.fp.Parameters).EncodeNew(m.Value, o.Level(), o.Scale, l.fp.LogSlots())
			})
			return l.fresh(o.Ciphertext, want.Value, true)
		}
	case "fdec":
		x := ct(2)
		c.in = []interface{}{x}
		k := r.N(3)
		c.name = []string{"Decrypt", "DecryptToMsg", "DecryptToMsgNew"}[k]
		lvl := x.Level() + r.N(mx-x.Level()+1)
		switch k {
		case 0:
			c.out = []interface{}{&ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: randPoly(r, rq, lvl)}, Scale: 3}}
			c.out[0].(*ckks.Plaintext).Value.IsNTT = true
			c.fit = func() []interface{} {
				f := ckks.NewPlaintext(l.p, x.Level(), 1)
				f.Value.IsNTT = true
				return []interface{}{f}
			}
		case 1:
			m := fckks.NewMessage(l.fp)
			for i := range m.Value {
				m.Value[i] = complex(r.F(), r.F())
			}
			c.out = []interface{}{m}
			c.fit = func() []interface{} { return []interface{}{fckks.NewMessage(l.fp)} }
		}
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			d := e.(*fckks.Decryptor)
			switch k {
			case 0:
				d.Decrypt(in[0].(*ckks.Ciphertext), out[0].(*ckks.Plaintext))
				return out
			case 1:
				d.DecryptToMsg(in[0].(*ckks.Ciphertext), out[0].(*fckks.Message))
				return out
			}
			return []interface{}{d.DecryptToMsgNew(in[0].(*ckks.Ciphertext))}
		}
	case "fkg":
		c.rnd = true
		k := r.N(4)
		rot := r.N(l.p.N())
		if r.P(0.6) {
			rot = r.N(3)
		}
		c.name = []string{"fast GenRelinKey", "fast GenRotKey", "fast GenSecretKey", "fast GenPublicKey"}[k]
		c.in = []interface{}{l.sk[r.N(2)]}
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			kg, s := e.(*frlwe.KeyGenerator), in[0].(*rlwe.SecretKey)
			switch k {
			case 0:
				return []interface{}{kg.GenRelinKey(s)}
			case 1:
				return []interface{}{kg.GenRotKey(rot, s)}
			case 2:
				return []interface{}{kg.GenSecretKey()}
			}
			return []interface{}{kg.GenPublicKey(s)}
		}
	default:
		run.Fail("catalogue of %s", kind)
	}
	switch kind {
	case "ks", "fks", "fev":
		// keys that end early make a call die half way
		if r.P(0.08) {
			for i := range c.in {
				if k := cutKey(c.in[i], r); k != nil {
					c.in[i] = k
					c.name += " (cut key)"
				}
			}
		}
	}
	if c.note == "" {
		for _, x := range append(append([]interface{}(nil), c.in...), c.out...) {
			switch x := x.(type) {
			case *ckks.Ciphertext:
				c.note += fmt.Sprintf("[ct degree %d level %d scale %v] ", x.Degree(), x.Level(), x.Scale)
			case *rlwe.Ciphertext:
				c.note += fmt.Sprintf("[ct degree %d level %d] ", x.Degree(), x.Level())
			case *ckks.Plaintext:
				c.note += fmt.Sprintf("[pt level %d scale %v] ", x.Level(), x.Scale)
			case *rlwe.Plaintext:
				c.note += fmt.Sprintf("[pt level %d] ", x.Level())
			}
		}
	}
	return c
}

// cutKey returns a key that has only the first of the given key's digits, or only the first of the blocks of one digit
// (nil: the value is no key, or there is nothing to cut). The polynomials are shared.
func cutKey(v interface{}, r *core.RNG) interface{} {
	one := func(k *frlwe.SwitchingKey) *frlwe.SwitchingKey {
		x := &frlwe.SwitchingKey{Value: append([][]*ring.Poly(nil), k.Value...)}
		d := r.N(len(x.Value))
		if r.P(0.5) {
			x.Value = x.Value[:d]
		} else {
			x.Value[d] = x.Value[d][:r.N(len(x.Value[d]))]
		}
		return x
	}
	two := func(v [2]*frlwe.SwitchingKey) [2]*frlwe.SwitchingKey {
		i := r.N(2)
		v[i] = one(v[i])
		return v
	}
	switch k := v.(type) {
	case *rlwe.SwitchingKey:
		return &rlwe.SwitchingKey{Value: k.Value[:r.N(len(k.Value))]}
	case *frlwe.SwitchingKey:
		return one(k)
	case *frlwe.RelinKey:
		return &frlwe.RelinKey{Value: two(k.Value)}
	case *frlwe.RotationKey:
		return &frlwe.RotationKey{Value: two(k.Value), Rotidx: k.Rotidx}
	}
	return nil
}

// fastSums takes sums from the fast evaluator itself.
type fastSums struct {
	ckks.Evaluator
	f *fckks.Evaluator
}

func (e fastSums) Add(a, b ckks.Operand, o *ckks.Ciphertext) { e.f.Add(a, b, o) }
func (e fastSums) AddNew(a, b ckks.Operand) *ckks.Ciphertext { return e.f.AddNew(a, b) }
func (e fastSums) Sub(a, b ckks.Operand, o *ckks.Ciphertext) { e.f.Sub(a, b, o) }
func (e fastSums) SubNew(a, b ckks.Operand) *ckks.Ciphertext { return e.f.SubNew(a, b) }

func (l *lib) evCatalog(c *ccall, r *core.RNG, op string, ct func(int) *ckks.Ciphertext, pt func() *ckks.Plaintext, bad bool) {
	ec := &evCall{op: op}
	c.name = op
	mx := l.p.MaxLevel()
	a := ct(2)
	deg, lvl := a.Degree(), a.Level()
	c.alias = []int{0}
	two := func(b ckks.Operand) {
		ec.b = b
		c.in = []interface{}{a, b}
		lvl = min(lvl, b.Level())
		if x, ok := b.(*ckks.Ciphertext); ok {
			c.alias = append(c.alias, 1)
			_ = x
		}
	}
	operand := func(d int) ckks.Operand {
		if r.P(0.25) {
			return pt()
		}
		if r.P(0.15) {
			return a
		}
		return ct(d)
	}
	c.in = []interface{}{a}
	switch op {
	case "add", "sub", "addnomod", "subnomod":
		b := operand(2)
		two(b)
		deg = max(deg, b.Degree())
	case "neg", "multi", "divi", "reduce":
	case "addconst", "mulconst", "mulconstadd":
		ec.c = l.constant(r)
		if bad {
			ec.c = "no number"
		}
	case "mulgauss", "mulgaussadd":
		ec.c, ec.c2 = int64(r.N(1<<20)), int64(r.N(1<<20))-1<<18
	case "mulpow2":
		ec.k = r.N(20)
	case "conj", "rotate", "switchkeys":
		a = ct(1)
		if bad {
			a = ct(2)
		}
		c.in[0], deg, lvl = a, a.Degree(), a.Level()
		ec.k = append([]int{0, 0}, l.rots...)[r.N(2+len(l.rots))]
		if bad && r.P(0.5) {
			ec.k = 3 + r.N(5)
		}
		if op == "switchkeys" {
			if l.swk == nil {
				op, ec.op, c.name = "neg", "neg", "neg"
			} else {
				ec.swk = l.swk
				c.in = append(c.in, l.swk)
			}
		}
	case "mul", "mulandadd":
		a = ct(1)
		deg, lvl = 1, a.Level()
		c.in[0] = a
		b := operand(1)
		two(b)
		deg = 1 + b.Degree()
		if bad {
			ec.b = l.cts[r.N(len(l.cts))]
		}
	case "mulrelin", "mulrelinandadd":
		a = ct(1)
		deg, lvl = 1, a.Level()
		c.in[0] = a
		b := operand(1)
		two(b)
		deg = 1
	case "relin":
		a = l.randCt(r, 2, r.N(mx+1), l.scale(r))
		for _, x := range l.cts {
			if x.Degree() == 2 {
				a = x
			}
		}
		c.in[0], deg, lvl = a, 1, a.Level()
		c.alias = []int{0}
	case "scaleup":
		ec.f = float64(1 + r.N(1000))
	case "rescale":
		ec.f = a.Scale / math.Ldexp(1, r.N(40))
		if bad {
			ec.f = 0
		}
	case "setscale", "droplevel":
		c.alias = nil
	case "hoist":
		c.alias, c.exact = nil, true
		if len(l.rots) == 0 {
			op, ec.op, c.name = "neg", "neg", "neg"
			break
		}
		a = ct(1)
		c.in[0], lvl = a, a.Level()
		ks := append([]int{0}, l.rots...)
		ec.nmd = r.N(3)
		for i := 0; i < 1+r.N(3); i++ {
			ec.ks = append(ec.ks, ks[r.N(len(ks))])
			c.out = append(c.out, l.randCt(r, 1, lvl, 1))
		}
		n := len(ec.ks)
		c.fit = func() (res []interface{}) {
			for i := 0; i < n; i++ {
				res = append(res, ckks.NewCiphertext(l.p, 1, lvl, 1))
			}
			return
		}
	}
	ec.a = a
	switch op {
	case "hoist":
	case "setscale", "droplevel":
		o := cloneV(ct(2)).(*ckks.Ciphertext)
		ec.f = o.Scale * (1 + 3*r.F())
		if r.P(0.5) {
			ec.f = o.Scale * float64(1+r.N(9))
		}
		ec.k = r.N(o.Level() + 1)
		if bad {
			ec.k = o.Level() + 1
		}
		c.in, c.out, c.acc = nil, []interface{}{o}, true
	case "mulconstadd", "mulgaussadd", "mulandadd", "mulrelinandadd":
		c.acc = true
		o := l.randCt(r, max(deg, 1+r.N(2)), r.N(mx+1), a.Scale*math.Ldexp(1, r.N(20)))
		c.out = []interface{}{o}
		c.alias = nil
	default:
		if o := l.recv(r, op, deg, lvl); o != nil {
			c.out = []interface{}{o}
		} else {
			c.alias = nil
		}
		if op == "reduce" && c.out == nil {
			c.alias = nil
		}
		c.fit = l.fitCt(deg, lvl)
		c.creates = !needsOut(op)
		if op == "rescale" && c.out != nil {
			// the receiver of a rescaling has the operand's level or more
			c.out = []interface{}{l.randCt(r, deg+r.N(2), lvl+r.N(l.p.MaxLevel()-lvl+1), l.scale(r))}
		}
	}
	c.run = func(e interface{}, in, out []interface{}) []interface{} {
		x := *ec
		ev, ok := e.(ckks.Evaluator)
		if f, fast := e.(*fckks.Evaluator); fast {
			if ev, ok = f.Evaluator, true; x.op == "add" || x.op == "sub" {
				ev = fastSums{ev, f}
			}
		}
		if !ok {
			run.Fail("no evaluator")
		}
		if len(in) > 0 {
			x.a = in[0].(ckks.Operand)
		}
		if ec.b != nil && len(in) > 1 {
			x.b = in[1].(ckks.Operand)
		}
		if x.op == "hoist" {
			for _, o := range out {
				x.outs = append(x.outs, o.(*ckks.Ciphertext))
			}
		} else if len(out) > 0 {
			x.out = out[0].(*ckks.Ciphertext)
		}
		if !x.has(ev) {
			return []interface{}{1.0}
		}
		o, err := x.run(ev)
		if err != nil {
			panic(err)
		}
		if x.op == "hoist" {
			return out
		}
		return []interface{}{o}
	}
}

func (l *lib) ecdCatalog(c *ccall, r *core.RNG, pt func() *ckks.Plaintext, bad bool) {
	rq := l.p.RingQ()
	mx := l.p.MaxLevel()
	mls := l.p.MaxLogSlots()
	ls := r.N(mls + 1)
	lvl, sc := r.N(mx+1), l.scale(r)
	recv := func() *ckks.Plaintext {
		v := randPoly(r, rq, lvl)
		v.IsNTT = r.P(0.7)
		return &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: v}, Scale: sc}
	}
	fit := func() []interface{} { return []interface{}{ckks.NewPlaintext(l.p, lvl, sc)} }
	vals := func() interface{} {
		if bad && r.P(0.5) {
			return []int{1, 2}
		}
		if bad {
			return make([]complex128, 1+1<<uint(ls))
		}
		if r.P(0.4) {
			m := l.msgs[r.N(len(l.msgs))]
			n := 0
			switch m := m.(type) {
			case []complex128:
				n = len(m)
			case []float64:
				n = len(m)
			}
			for 1<<uint(ls) < n {
				ls++
			}
			return m
		}
		return l.values(r, ls)
	}
	floats := func() []float64 {
		v := make([]float64, 1+r.N(l.p.N()))
		if r.P(0.5) {
			v = make([]float64, l.p.N())
		}
		if bad {
			v = make([]float64, l.p.N()+1)
		}
		for i := range v {
			v[i] = 2*r.F() - 1
		}
		return v
	}
	k := r.N(10)
	switch k {
	case 0, 1:
		c.name = "Encode"
		c.in = []interface{}{vals()}
		c.out, c.fit = []interface{}{recv()}, fit
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			if k == 0 {
				e.(ckks.Encoder).Encode(in[0], out[0].(*ckks.Plaintext), ls)
			} else {
				e.(ckks.Encoder).EncodeSlots(in[0], out[0].(*ckks.Plaintext), ls)
			}
			return out
		}
	case 2:
		c.name = "EncodeNew"
		c.in = []interface{}{vals()}
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			return []interface{}{e.(ckks.Encoder).EncodeNew(in[0], lvl, sc, ls)}
		}
	case 3, 4:
		c.name = "Decode"
		c.in = []interface{}{pt()}
		if bad {
			ls = mls + 1
		}
		if r.P(0.2) {
			c.name, c.rnd = "DecodePublic", true
		}
		rnd := c.rnd
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			if rnd {
				return []interface{}{e.(ckks.Encoder).DecodePublic(in[0].(*ckks.Plaintext), ls, 3.2)}
			}
			return []interface{}{e.(ckks.Encoder).Decode(in[0].(*ckks.Plaintext), ls)}
		}
	case 5:
		c.name = "EncodeCoeffs"
		c.in = []interface{}{floats()}
		c.out, c.fit = []interface{}{recv()}, fit
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			e.(ckks.Encoder).EncodeCoeffs(in[0].([]float64), out[0].(*ckks.Plaintext))
			return out
		}
	case 6:
		c.name = "EncodeCoeffsNew"
		c.in = []interface{}{floats()}
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			return []interface{}{e.(ckks.Encoder).EncodeCoeffsNew(in[0].([]float64), lvl, sc)}
		}
	case 7:
		c.name = "DecodeCoeffs"
		c.in = []interface{}{pt()}
		if r.P(0.2) {
			c.name, c.rnd = "DecodeCoeffsPublic", true
		}
		rnd := c.rnd
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			if rnd {
				return []interface{}{e.(ckks.Encoder).DecodeCoeffsPublic(in[0].(*ckks.Plaintext), 3.2)}
			}
			return []interface{}{e.(ckks.Encoder).DecodeCoeffs(in[0].(*ckks.Plaintext))}
		}
	case 8:
		c.name = "Embed"
		mont := r.P(0.5)
		c.in = []interface{}{vals()}
		if l.hasP && r.P(0.6) {
			lp := r.N(l.p.PCount())
			c.name = "Embed QP"
			c.out = []interface{}{rlwe.PolyQP{Q: randPoly(r, rq, lvl), P: randPoly(r, l.p.RingP(), lp)}}
			c.fit = func() []interface{} {
				return []interface{}{rlwe.PolyQP{Q: rq.NewPolyLvl(lvl), P: l.p.RingP().NewPolyLvl(lp)}}
			}
		} else {
			c.out = []interface{}{randPoly(r, rq, lvl)}
			c.fit = func() []interface{} { return []interface{}{rq.NewPolyLvl(lvl)} }
		}
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			e.(ckks.Encoder).Embed(in[0], ls, sc, mont, out[0])
			return out
		}
	default:
		n := 1 << uint(1+r.N(mls))
		if 1<<uint(mls) < n {
			n = 1 << uint(mls)
		}
		if n > 4 && r.P(0.5) {
			n -= 1 + r.N(n/2-1)
		}
		a, b := make([]complex128, n), make([]complex128, n)
		for i := range a {
			a[i], b[i] = complex(r.F(), r.F()), complex(r.F(), r.F())
		}
		c.in = []interface{}{a, b}
		slot := r.P(0.5)
		c.name = "GetErrSTD"
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			if slot {
				return []interface{}{e.(ckks.Encoder).GetErrSTDSlotDomain(in[0].([]complex128), in[1].([]complex128), sc)}
			}
			return []interface{}{e.(ckks.Encoder).GetErrSTDCoeffDomain(in[0].([]complex128), in[1].([]complex128), sc)}
		}
	}
	c.note = fmt.Sprintf("2^%d slots, level %d, scale %v", ls, lvl, sc)
}

func (l *lib) ksCatalog(c *ccall, r *core.RNG, dirty func(*ring.Ring, int) *ring.Poly) {
	rp := l.p.Parameters
	rq, rP := rp.RingQ(), rp.RingP()
	mx := rp.MaxLevel()
	lq, lp := r.N(mx+1), rp.PCount()-1
	x := randPoly(r, rq, lq+r.N(mx-lq+1))
	x.IsNTT = r.P(0.5)
	q := func() *ring.Poly { return dirty(rq, lq+r.N(mx-lq+1)) }
	p := func() *ring.Poly { return dirty(rP, lp) }
	beta := (lq + lp + 1) / (lp + 1)
	digits := func() (d []rlwe.PolyQP) {
		for i := 0; i < beta; i++ {
			d = append(d, rlwe.PolyQP{Q: randPoly(r, rq, lq), P: randPoly(r, rP, lp)})
			d[i].Q.IsNTT, d[i].P.IsNTT = true, true
		}
		return
	}
	zq := func() interface{} { return rq.NewPolyLvl(lq) }
	zp := func() interface{} { return rP.NewPolyLvl(lp) }
	po := func(v interface{}) *ring.Poly { return v.(*ring.Poly) }
	c.note = fmt.Sprintf("level %d, NTT %v", lq, x.IsNTT)
	keep := l.swk
	switch r.N(7) {
	case 0, 1:
		c.name = "SwitchKeysInPlace"
		c.in = []interface{}{x, keep}
		c.out = []interface{}{q(), q()}
		c.fit = func() []interface{} { return []interface{}{zq(), zq()} }
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			e.(*rlwe.KeySwitcher).SwitchKeysInPlace(lq, po(in[0]), in[1].(*rlwe.SwitchingKey), po(out[0]), po(out[1]))
			return []interface{}{rows{po(out[0]), lq + 1}, rows{po(out[1]), lq + 1}}
		}
	case 2:
		c.name = "SwitchKeysInPlaceNoModDown"
		c.in = []interface{}{x, keep}
		c.out = []interface{}{q(), p(), q(), p()}
		c.fit = func() []interface{} { return []interface{}{zq(), zp(), zq(), zp()} }
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			e.(*rlwe.KeySwitcher).SwitchKeysInPlaceNoModDown(lq, po(in[0]), in[1].(*rlwe.SwitchingKey), po(out[0]), po(out[1]), po(out[2]), po(out[3]))
			return []interface{}{rows{po(out[0]), lq + 1}, rows{po(out[1]), lp + 1}, rows{po(out[2]), lq + 1}, rows{po(out[3]), lp + 1}}
		}
	case 3:
		c.name = "DecomposeNTT"
		c.in = []interface{}{x}
		c.out = []interface{}{digits()}
		c.fit = func() []interface{} {
			var d []rlwe.PolyQP
			for i := 0; i < beta; i++ {
				d = append(d, rlwe.PolyQP{Q: rq.NewPolyLvl(lq), P: rP.NewPolyLvl(lp)})
			}
			return []interface{}{d}
		}
		c.run = func(e interface{}, in, out []interface{}) (res []interface{}) {
			d := out[0].([]rlwe.PolyQP)
			e.(*rlwe.KeySwitcher).DecomposeNTT(lq, lp, lp+1, po(in[0]), d)
			for _, v := range d {
				res = append(res, rows{v.Q, lq + 1}, rows{v.P, lp + 1})
			}
			return
		}
	case 4:
		// hoisting from the engine's own decomposition buffer, for as long as it offers one
		c.name = "DecomposeNTT and KeyswitchHoisted in the engine's buffer"
		c.in = []interface{}{x, keep}
		c.out = []interface{}{q(), q(), p(), p()}
		c.fit = func() []interface{} { return []interface{}{zq(), zq(), zp(), zp()} }
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			ks := e.(*rlwe.KeySwitcher)
			var d []rlwe.PolyQP
			if f := reflect.ValueOf(ks).Elem().FieldByName("PoolDecompQP"); f.IsValid() && f.CanInterface() {
				d, _ = f.Interface().([]rlwe.PolyQP)
			}
			if len(d) < beta {
				d = nil
				for i := 0; i < beta; i++ {
					d = append(d, rlwe.PolyQP{Q: rq.NewPoly(), P: rP.NewPoly()})
				}
			}
			ks.DecomposeNTT(lq, lp, lp+1, po(in[0]), d)
			ks.KeyswitchHoisted(lq, d, in[1].(*rlwe.SwitchingKey), po(out[0]), po(out[1]), po(out[2]), po(out[3]))
			return []interface{}{rows{po(out[0]), lq + 1}, rows{po(out[1]), lq + 1}}
		}
	case 5:
		c.name = "DecomposeSingleNTT"
		y := randPoly(r, rq, lq+r.N(mx-lq+1))
		i := r.N(beta)
		c.in = []interface{}{x, y}
		c.out = []interface{}{q(), p()}
		c.fit = func() []interface{} { return []interface{}{zq(), zp()} }
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			e.(*rlwe.KeySwitcher).DecomposeSingleNTT(lq, lp, lp+1, i, po(in[0]), po(in[1]), po(out[0]), po(out[1]))
			return []interface{}{rows{po(out[0]), lq + 1}, rows{po(out[1]), lp + 1}}
		}
	default:
		c.name = "KeyswitchHoisted"
		down := r.P(0.5)
		if !down {
			c.name = "KeyswitchHoistedNoModDown"
		}
		c.in = []interface{}{digits(), keep}
		c.out = []interface{}{q(), q(), p(), p()}
		c.fit = func() []interface{} { return []interface{}{zq(), zq(), zp(), zp()} }
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			ks := e.(*rlwe.KeySwitcher)
			d, k := in[0].([]rlwe.PolyQP), in[1].(*rlwe.SwitchingKey)
			res := []interface{}{rows{po(out[0]), lq + 1}, rows{po(out[1]), lq + 1}}
			if down {
				ks.KeyswitchHoisted(lq, d, k, po(out[0]), po(out[1]), po(out[2]), po(out[3]))
				return res
			}
			ks.KeyswitchHoistedNoModDown(lq, d, k, po(out[0]), po(out[1]), po(out[2]), po(out[3]))
			return append(res, rows{po(out[2]), lp + 1}, rows{po(out[3]), lp + 1})
		}
	}
}

func (l *lib) fevCatalog(c *ccall, r *core.RNG, ct func(int) *ckks.Ciphertext, pt func() *ckks.Plaintext, bad bool) {
	mx := l.p.MaxLevel()
	k := r.N(6)
	a := ct(1)
	lvl := a.Level()
	c.alias = []int{0}
	cty := func(v interface{}) *ckks.Ciphertext { return v.(*ckks.Ciphertext) }
	nw := r.P(0.3)
	recv := func() {
		if nw {
			c.alias = nil
			return
		}
		c.out = []interface{}{l.randCt(r, 1, lvl+r.N(mx-lvl+1), l.scale(r))}
		c.fit = l.fitCt(1, lvl)
	}
	switch k {
	case 0, 1:
		c.name = "fast MulRelin"
		b := ct(1)
		if r.P(0.3) {
			b = a
		}
		if bad {
			b = l.cts[r.N(len(l.cts))]
		}
		c.in = []interface{}{a, b, l.frlk}
		lvl = min(lvl, b.Level())
		c.alias = append(c.alias, 1)
		recv()
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			ev := e.(*fckks.Evaluator)
			if nw {
				return []interface{}{ev.MulRelinNew(cty(in[0]), cty(in[1]), in[2].(*frlwe.RelinKey))}
			}
			ev.MulRelin(cty(in[0]), cty(in[1]), in[2].(*frlwe.RelinKey), cty(out[0]))
			return out
		}
	case 2:
		c.name = "fast Rotate"
		c.in = []interface{}{a, l.frtk}
		recv()
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			ev := e.(*fckks.Evaluator)
			if nw {
				return []interface{}{ev.RotateNew(cty(in[0]), in[1].(*frlwe.RotationKey))}
			}
			ev.Rotate(cty(in[0]), in[1].(*frlwe.RotationKey), cty(out[0]))
			return out
		}
	case 3:
		c.name = "fast SwitchKeys"
		c.in = []interface{}{a, l.fswk[0], l.fswk[1]}
		recv()
		c.run = func(e interface{}, in, out []interface{}) []interface{} {
			ev := e.(*fckks.Evaluator)
			sw := [2]*frlwe.SwitchingKey{in[1].(*frlwe.SwitchingKey), in[2].(*frlwe.SwitchingKey)}
			if nw {
				return []interface{}{ev.SwitchKeysNew(cty(in[0]), sw)}
			}
			ev.SwitchKeys(cty(in[0]), sw, cty(out[0]))
			return out
		}
	default:
		// the operations of the classical evaluator it embeds; those that need keys are refused
		op := catEvOps[r.N(len(catEvOps))]
		if needsKeys[op] && r.P(0.9) {
			op = "add"
		}
		l.evCatalog(c, r, op, ct, pt, bad)
		c.name = "fast " + c.name
	}
}

// fresh checks that a ciphertext is a fresh encryption of a plaintext under the first secret.
func (l *lib) fresh(ct *rlwe.Ciphertext, pt *ring.Poly, pk bool) string {
	rp := l.p.Parameters
	rq := rp.RingQ()
	n := min(ct.Level(), pt.Level()) + 1
	if ct.Degree() != 1 || ct.Level() != n-1 {
		return fmt.Sprintf("degree %d, level %d", ct.Degree(), ct.Level())
	}
	s := lab.ReadSecret(rp, l.sk[0])
	ph := phaseEval(rq, ct.Value, s.Q)
	m := lab.Evals(rq, pt.Coeffs[:n], pt.IsNTT, false)
	d := lab.MaxBig(lab.CRT(lab.Coeffs(rq, lab.SubRows(ph, m, rq.Modulus), true, false), rq.Modulus[:n]))
	cf := int64(1)
	if l.shape.CI == 1 {
		cf = 2
	}
	E := int64(6*rp.Sigma()) + 1
	b := E
	if pk {
		b = cf*int64(rp.N())*E + E + cf*lab.L1(s.Ints)*E + 2 + cf*lab.L1(s.Ints)
	}
	if d.Cmp(big.NewInt(b)) > 0 {
		return fmt.Sprintf("the phase is off the plaintext by %d bits, bound %d", d.BitLen(), b)
	}
	return ""
}
