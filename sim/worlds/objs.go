package worlds

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
	"vsim/lab"
	"vsim/run"
	"vsim/sched"
)

// Serialisable objects, as the persistence worlds see them.

var objKinds = []string{"rparams", "rparams-json", "cparams", "cparams-json", "ring", "poly", "sk", "pk", "rlk", "swk", "rtks", "ct", "cct"}

type binary interface {
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

// party is what one parameter set offers.
type party struct {
	shape lab.Shape
	rp    rlwe.Parameters
	cp    ckks.Parameters
	kg    rlwe.KeyGenerator
	sk    *rlwe.SecretKey
	pk    *rlwe.PublicKey
	rlk   *rlwe.RelinearizationKey
	ct    *rlwe.Ciphertext // encryption under sk, degree 1, top level
	pt    *rlwe.Plaintext
}

func newParty(s lab.Shape, logSlots int, scale float64, h, sigma int) *party {
	q := &party{shape: s}
	qq, pp := s.Moduli()
	hw, sg := s.H, s.SigmaF()
	if hw == 0 {
		hw = 1 << uint(s.LogN-1)
	}
	if h == 1 {
		hw = 0
	}
	if sigma == 1 {
		sg = 0
	}
	var err error
	if q.rp, err = rlwe.NewParameters(s.LogN, qq, pp, hw, sg, s.Type()); err != nil {
		run.Fail("parameters refused: %v", err)
	}
	if q.cp, err = ckks.NewParameters(q.rp, logSlots, scale); err != nil {
		run.Fail("ckks parameters refused: %v", err)
	}
	q.kg = rlwe.NewKeyGenerator(q.rp)
	q.sk, q.pk = q.kg.GenKeyPair()
	q.pt = rlwe.NewPlaintext(q.rp, q.rp.QCount()-1)
	q.ct = rlwe.NewCiphertext(q.rp, 1, q.rp.QCount()-1)
	rlwe.NewEncryptor(q.rp, q.sk).Encrypt(q.pt, q.ct)
	if q.rp.PCount() > 0 {
		q.rlk = q.kg.GenRelinearizationKey(q.sk, 1)
	}
	return q
}

func randPoly(r *core.RNG, rg *ring.Ring, lvl int) *ring.Poly {
	p := rg.NewPolyLvl(lvl)
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = r.U64() % rg.Modulus[i]
		}
	}
	return p
}

// hasKind says whether this party can produce the kind.
func (q *party) hasKind(kind string) bool {
	switch kind {
	case "rlk", "swk", "rtks":
		return q.rp.PCount() > 0
	}
	return true
}

// make builds an object of a kind with the library.
func (q *party) make(kind string, r *core.RNG) interface{} {
	rp := q.rp
	top := rp.QCount() - 1
	switch kind {
	case "rparams", "rparams-json":
		p := q.rp
		return &p
	case "cparams", "cparams-json":
		p := q.cp
		return &p
	case "ring":
		if r.P(0.3) && rp.RingP() != nil {
			return rp.RingP()
		}
		return rp.RingQ()
	case "poly":
		p := randPoly(r, rp.RingQ(), r.N(top+1))
		p.IsNTT, p.IsMForm = r.P(0.5), r.P(0.3)
		return p
	case "sk":
		switch r.N(3) {
		case 0:
			return q.kg.GenSecretKeyGaussian()
		case 1:
			return q.kg.GenSecretKeyWithHammingWeight(1 + r.N(rp.N()))
		}
		return q.kg.GenSecretKey()
	case "pk":
		return q.kg.GenPublicKey(q.sk)
	case "rlk":
		return q.kg.GenRelinearizationKey(q.sk, 1+r.N(3))
	case "swk":
		return q.kg.GenSwitchingKey(q.sk, q.kg.GenSecretKey())
	case "rtks":
		var ks []int
		for k := r.N(4); k >= 0; k-- {
			ks = append(ks, r.N(2*rp.N())-rp.N())
		}
		set := q.kg.GenRotationKeysForRotations(ks, r.P(0.4) && q.shape.CI != 1, q.sk)
		if r.P(0.3) {
			// the Galois elements of larger rings (LogN up to 17), which are beyond these
			var els []uint64
			for g := range set.Keys {
				els = append(els, g)
			}
			sort.Slice(els, func(a, b int) bool { return els[a] < els[b] })
			for _, g := range els {
				if r.P(0.5) {
					delete(set.Keys, g)
					set.Keys[g+2*uint64(rp.N())*uint64(r.N(1<<18/rp.N()))] = q.kg.GenSwitchingKey(q.sk, q.kg.GenSecretKey())
				}
			}
		}
		return set
	case "ct":
		c := rlwe.NewCiphertext(rp, 0, 0)
		c.Value = nil
		l, d := r.N(top+1), r.N(4)
		for k := 0; k <= d; k++ {
			p := randPoly(r, rp.RingQ(), l)
			p.IsNTT = r.P(0.5)
			c.Value = append(c.Value, p)
		}
		return c
	case "cct":
		scales := []float64{1, q.cp.DefaultScale(), math.Ldexp(1.7, 200), 0.125, math.Ldexp(float64(1+r.N(1<<30)), r.N(80))}
		c := ckks.NewCiphertext(q.cp, r.N(4), r.N(top+1), scales[r.N(len(scales))])
		for _, v := range c.Value {
			v.Coeffs = randPoly(r, rp.RingQ(), v.Level()).Coeffs
			v.IsNTT = r.P(0.8)
		}
		return c
	}
	run.Fail("kind %s", kind)
	return nil
}

// blank returns a receiver.
func (q *party) blank(kind string, r *core.RNG) interface{} {
	alloc := q != nil && r.P(0.4)
	switch kind {
	case "rparams", "rparams-json":
		return new(rlwe.Parameters)
	case "cparams", "cparams-json":
		return new(ckks.Parameters)
	case "ring":
		return new(ring.Ring)
	case "poly":
		if alloc {
			return q.rp.RingQ().NewPolyLvl(r.N(q.rp.QCount()))
		}
		return new(ring.Poly)
	case "sk":
		if alloc {
			return rlwe.NewSecretKey(q.rp)
		}
		return new(rlwe.SecretKey)
	case "pk":
		if alloc {
			return rlwe.NewPublicKey(q.rp)
		}
		return new(rlwe.PublicKey)
	case "rlk":
		if alloc && q.rp.PCount() > 0 {
			return rlwe.NewRelinKey(q.rp, 1+r.N(2))
		}
		return new(rlwe.RelinearizationKey)
	case "swk":
		if alloc && q.rp.PCount() > 0 {
			return rlwe.NewSwitchingKey(q.rp, q.rp.QCount()-1, q.rp.PCount()-1)
		}
		return new(rlwe.SwitchingKey)
	case "rtks":
		if alloc && q.rp.PCount() > 0 {
			return rlwe.NewRotationKeySet(q.rp, []uint64{5, 25})
		}
		return new(rlwe.RotationKeySet)
	case "ct":
		if alloc {
			return rlwe.NewCiphertextNTT(q.rp, r.N(3), r.N(q.rp.QCount()))
		}
		return new(rlwe.Ciphertext)
	case "cct":
		if alloc {
			return ckks.NewCiphertext(q.cp, r.N(3), r.N(q.rp.QCount()), 3)
		}
		return new(ckks.Ciphertext)
	}
	run.Fail("kind %s", kind)
	return nil
}

func isJSON(kind string) bool { return kind == "rparams-json" || kind == "cparams-json" }

func encode(kind string, o interface{}) ([]byte, error) {
	if isJSON(kind) {
		return json.Marshal(o)
	}
	return o.(binary).MarshalBinary()
}

func decode(kind string, o interface{}, b []byte) error {
	if isJSON(kind) {
		// a standard decoder checks the syntax before the object sees the text; a caller of the method does not
		if n := 0; len(b) > 0 {
			for _, x := range b {
				n += int(x)
			}
			if n&1 == 1 {
				return o.(json.Unmarshaler).UnmarshalJSON(b)
			}
		}
		return json.Unmarshal(b, o)
	}
	return o.(binary).UnmarshalBinary(b)
}

// announced returns the length the object announces for its encoding, or -1.
func announced(kind string, o interface{}) int {
	switch v := o.(type) {
	case *rlwe.Parameters:
		if !isJSON(kind) {
			return v.MarshalBinarySize()
		}
	case *ckks.Parameters:
		if !isJSON(kind) {
			return v.MarshalBinarySize()
		}
	case interface{ GetDataLen(bool) int }:
		return v.GetDataLen(true)
	}
	return -1
}

// digests: exact content of an object; flags selects whether domain flags count.

func digPoly(h uint64, p *ring.Poly, flags bool) uint64 {
	if p == nil {
		return core.Mix(h ^ 0xdead)
	}
	h = core.Mix(h ^ uint64(len(p.Coeffs)))
	for _, c := range p.Coeffs {
		h = HU(h, c)
	}
	if flags {
		h = core.H(h, b2u(p.IsNTT), b2u(p.IsMForm))
	}
	return h
}

func digQP(h uint64, p rlwe.PolyQP, flags bool) uint64 {
	return digPoly(digPoly(h, p.Q, flags), p.P, flags)
}

func digSwk(h uint64, k *rlwe.SwitchingKey, flags bool) uint64 {
	if k == nil {
		return core.Mix(h ^ 0xbeef)
	}
	h = core.H(h, uint64(len(k.Value)))
	for i := range k.Value {
		h = digQP(digQP(h, k.Value[i][0], flags), k.Value[i][1], flags)
	}
	return h
}

func digRing(h uint64, r *ring.Ring) uint64 {
	if r == nil {
		return core.Mix(h ^ 0xabc)
	}
	ty := uint64(99)
	switch r.NumberTheoreticTransformer.(type) {
	case ring.NumberTheoreticTransformerStandard:
		ty = 1
	case ring.NumberTheoreticTransformerConjugateInvariant:
		ty = 2
	}
	return HU(core.H(h, uint64(r.N), r.NthRoot, b2u(r.AllowsNTT), ty), r.Modulus)
}

func digRP(h uint64, p rlwe.Parameters) uint64 {
	h = core.H(h, uint64(p.LogN()), uint64(p.HammingWeight()), math.Float64bits(p.Sigma()), uint64(p.RingType()))
	h = HU(HU(h, p.Q()), p.P())
	h = digRing(h, p.RingQ())
	if len(p.P()) > 0 {
		h = digRing(h, p.RingP())
	}
	return h
}

func dig(o interface{}, flags bool) uint64 {
	switch v := o.(type) {
	case *rlwe.Parameters:
		return digRP(1, *v)
	case *ckks.Parameters:
		return core.H(digRP(2, v.Parameters), uint64(v.LogSlots()), math.Float64bits(v.DefaultScale()))
	case *ring.Ring:
		return digRing(3, v)
	case *ring.Poly:
		return digPoly(4, v, flags)
	case *rlwe.SecretKey:
		return digQP(5, v.Value, flags)
	case *rlwe.PublicKey:
		return digQP(digQP(6, v.Value[0], flags), v.Value[1], flags)
	case *rlwe.SwitchingKey:
		return digSwk(7, v, flags)
	case *rlwe.RelinearizationKey:
		h := core.H(8, uint64(len(v.Keys)))
		for _, k := range v.Keys {
			h = digSwk(h, k, flags)
		}
		return h
	case *rlwe.RotationKeySet:
		h := core.H(9, uint64(len(v.Keys)))
		for _, g := range sortedGal(v) {
			h = digSwk(core.H(h, g), v.Keys[g], flags)
		}
		return h
	case *rlwe.Ciphertext:
		h := core.H(10, uint64(len(v.Value)))
		for _, p := range v.Value {
			h = digPoly(h, p, flags)
		}
		return h
	case *ckks.Ciphertext:
		if v.Ciphertext == nil {
			return 12
		}
		return core.H(dig(v.Ciphertext, flags), math.Float64bits(v.Scale))
	}
	run.Fail("digest of %T", o)
	return 0
}

// zeroDefaulted returns what JSON makes of parameters with a zero field: zero is read as "not set". ok is false if o has
// no such field.
func zeroDefaulted(o interface{}) (res interface{}, ok bool) {
	fix := func(p rlwe.Parameters) rlwe.Parameters {
		h, sg := p.HammingWeight(), p.Sigma()
		if h == 0 {
			h, ok = 1<<uint(p.LogN()-1), true
		}
		if sg == 0 {
			sg, ok = rlwe.DefaultSigma, true
		}
		n, err := rlwe.NewParameters(p.LogN(), p.Q(), p.P(), h, sg, p.RingType())
		if err != nil {
			run.Fail("%v", err)
		}
		return n
	}
	switch v := o.(type) {
	case *rlwe.Parameters:
		n := fix(*v)
		return &n, ok
	case *ckks.Parameters:
		ls := v.LogSlots()
		if ls == 0 {
			ls, ok = v.MaxLogSlots(), true
		}
		n, err := ckks.NewParameters(fix(v.Parameters), ls, v.DefaultScale())
		if err != nil {
			run.Fail("%v", err)
		}
		return &n, ok
	}
	return nil, false
}

func sortedGal(v *rlwe.RotationKeySet) []uint64 {
	var g []uint64
	for k := range v.Keys {
		g = append(g, k)
	}
	sort.Slice(g, func(i, j int) bool { return g[i] < g[j] })
	return g
}

// libEquals asks the library whether two objects of a kind are equal; ok is false where it offers no such question.
func libEquals(a, b interface{}) (eq, ok bool) {
	switch v := a.(type) {
	case *rlwe.Parameters:
		return v.Equals(*b.(*rlwe.Parameters)), true
	case *ckks.Parameters:
		return v.Equals(*b.(*ckks.Parameters)), true
	case *ring.Poly:
		return v.Equals(b.(*ring.Poly)), true
	case *rlwe.PublicKey:
		return v.Equals(b.(*rlwe.PublicKey)), true
	case *rlwe.SecretKey:
		return v.Value.Equals(b.(*rlwe.SecretKey).Value), true
	case *rlwe.SwitchingKey:
		return v.Equals(b.(*rlwe.SwitchingKey)), true
	case *rlwe.RelinearizationKey:
		return v.Equals(b.(*rlwe.RelinearizationKey)), true
	case *rlwe.RotationKeySet:
		return v.Equals(b.(*rlwe.RotationKeySet)), true
	}
	return false, false
}

// useObj exercises an object and digests everything it produces. It must be called inside a step; with equal step ids
// the randomness is equal.
func (q *party) useObj(o interface{}) uint64 {
	r := core.NewRNG(77)
	h := uint64(1)
	top := q.rp.QCount() - 1
	swk := func(k *rlwe.SwitchingKey) {
		ks := rlwe.NewKeySwitcher(q.rp)
		for l := 0; l <= top; l += 1 + top/2 {
			cx := randPoly(r, q.rp.RingQ(), l)
			cx.IsNTT = true
			p0, p1 := q.rp.RingQ().NewPolyLvl(l), q.rp.RingQ().NewPolyLvl(l)
			ks.SwitchKeysInPlace(l, cx, k, p0, p1)
			h = digPoly(digPoly(h, p0, false), p1, false)
		}
	}
	switch v := o.(type) {
	case *rlwe.Parameters:
		sk := rlwe.NewKeyGenerator(*v).GenSecretKey()
		h = dig(sk, true)
		c := rlwe.NewCiphertext(*v, 1, v.QCount()-1)
		rlwe.NewEncryptor(*v, sk).Encrypt(rlwe.NewPlaintext(*v, v.QCount()-1), c)
		h = core.H(h, dig(c, true), v.GaloisElementForColumnRotationBy(3), uint64(v.MarshalBinarySize()))
	case *ckks.Parameters:
		e := ckks.NewEncoder(*v)
		vals := make([]complex128, 1<<uint(v.LogSlots()))
		for i := range vals {
			vals[i] = complex(r.F(), 0)
		}
		pt := e.EncodeNew(vals, v.MaxLevel(), v.DefaultScale(), v.LogSlots())
		h = core.H(digPoly(h, pt.Value, true), math.Float64bits(pt.Scale))
		sp, err := v.StandardParameters()
		if err != nil {
			panic(fmt.Sprint("StandardParameters: ", err))
		}
		h = core.H(h, dig(&sp, true))
	case *ring.Ring:
		p := randPoly(r, v, len(v.Modulus)-1)
		p2 := randPoly(r, v, len(v.Modulus)-1)
		v.NTT(p, p)
		v.NTTLazy(p2, p2)
		v.MulCoeffsMontgomery(p, p2, p2)
		v.InvNTT(p2, p2)
		if l := len(v.Modulus) - 1; l > 0 {
			v.DivRoundByLastModulusLvl(l, p2.CopyNew(), p2)
		}
		h = core.H(digPoly(h, p, false), digPoly(2, p2, false), uint64(v.Type()), HB(v.ModulusBigint.Bytes()))
	case *rlwe.SecretKey:
		pt := rlwe.NewPlaintext(q.rp, top)
		rlwe.NewDecryptor(q.rp, v).Decrypt(q.ct, pt)
		h = core.H(digPoly(h, pt.Value, true), dig(rlwe.NewKeyGenerator(q.rp).GenPublicKey(v), true))
	case *rlwe.PublicKey:
		c := rlwe.NewCiphertext(q.rp, 1, top)
		rlwe.NewEncryptor(q.rp, v).Encrypt(q.pt, c)
		h = dig(c, true)
	case *rlwe.SwitchingKey:
		swk(v)
	case *rlwe.RelinearizationKey:
		for _, k := range v.Keys {
			swk(k)
		}
	case *rlwe.RotationKeySet:
		for _, g := range sortedGal(v) {
			k, ok := v.GetRotationKey(g)
			if !ok {
				panic("key in the set is not found")
			}
			swk(k)
		}
	case *rlwe.Ciphertext:
		h = useCt(q, v)
	case *ckks.Ciphertext:
		h = useCt(q, v.Ciphertext)
	}
	return h
}

func useCt(q *party, c *rlwe.Ciphertext) uint64 {
	pt := rlwe.NewPlaintext(q.rp, c.Level())
	rlwe.NewDecryptor(q.rp, q.sk).Decrypt(c.CopyNew(), pt)
	return digPoly(1, pt.Value, true)
}

// twoParties builds the plan's two parameter sets.
func twoParties(y *Sys) (ps [2]*party, ok bool) {
	ok = y.Setup(-1, func() {
		a := lab.GetShape(y.P)
		b := a
		// the second set differs a little or a lot
		d := y.P.Get("delta")
		if d&1 != 0 {
			b.NQ = 1 + (a.NQ+1)%4
		}
		if d&2 != 0 && a.LogN < 6 {
			b.LogN = a.LogN + 1
		}
		if d&4 != 0 {
			b.NP = a.NP + 1
			if a.NP < 3 {
				b.NP %= 3
			}
		}
		if d&8 != 0 {
			b.CI = 1 - a.CI
		}
		if d&16 != 0 {
			b.Seed++
		}
		mk := func(s lab.Shape, k int) *party {
			mx := s.LogN - 1 + s.CI
			ls := y.P.Get("slots") % (mx + 1)
			z := y.P.Get("zero") >> uint(2*k)
			return newParty(s, ls, math.Ldexp(1+float64(y.P.Get("frac")%7)/8, 20+k), z&1, z>>1&1)
		}
		ps[0], ps[1] = mk(a, 0), mk(b, 1)
	})
	return
}

func genParties(p *run.Plan, r *core.RNG) {
	s := lab.RandShape(r, 6, 4, 0, 2)
	s.LogN = 4 + r.N(2)
	switch {
	case r.P(0.01):
		s.Wide(r, 11)
		if r.P(0.12) {
			// the largest rings: sizes that no longer fit 16 bits
			s.LogN, s.NQ, s.NP = 12+r.W(3, 2, 1, 1, 1, 2), 1, r.N(2)
			if s.H > 0 {
				s.H = 1 + r.N(1<<uint(s.LogN))
			}
		}
	case r.P(0.012):
		// long chains of ordinary and special moduli
		s.Long(r)
		s.LogN, s.NP = 4, r.N(9)
		if r.P(0.3) {
			s.NQ, s.NP = 1+r.N(6), 1+r.N(12)
		}
	}
	s.Put(p)
	p.Set("delta", r.N(32))
	if r.P(0.95) {
		p.Set("slots", 1+r.N(4)) // reduced modulo the number of sizes, so that most sets have more than one slot
	}
	p.Set("frac", r.N(7))
	z := 0
	if r.P(0.06) {
		z = r.N(16)
	}
	p.Set("zero", z)
}

var _ = sched.Outcome{}
