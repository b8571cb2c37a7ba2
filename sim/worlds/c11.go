package worlds

import (
	"fmt"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
	"vsim/lab"
	"vsim/run"
	"vsim/sched"
)

// Nodes with the fast engine relinearise, rotate and re-key ciphertexts of any level, with keys of several owners made
// by key generators that are reused, starved or refused; their engines serve one call after another, and several nodes
// work over shared keys, parameters and inputs at the same time.

func init() {
	run.Register(&run.Prop{
		ID: "C11", Quick: 7000, Thorough: 150000,
		Worlds: []*run.World{
			{Kind: "fast", Weight: 3, Gen: genFast(1), Exec: execFast},
			{Kind: "parallel", Weight: 1, Gen: genFast(3), Exec: execFast},
		},
		Rule:   "one evaluation is one key switch whose exact noise was compared with its bound, or one input compared with its value before the call; distinct are (operation, digits, blocks, level, levels of the receiver) states and interleavings",
		Real:   []string{"frlwe.KeyGenerator", "frlwe.KeySwitcher", "fckks.Evaluator", "rlwe.KeyGenerator", "ring samplers, NTT, basis extension, automorphisms"},
		Stub:   []string{"crypto/rand (simulated device: per-call streams, errors, short reads)", "goroutine scheduling (cooperative, seeded)"},
		Assume: []string{"the auxiliary modulus exceeds eight times digits x ring degree x digit modulus x block modulus, and each of its primes exceeds the ciphertext primes", "the reference computes in the library's NTT evaluation domain and returns through it"},
	})
}

func genFast(nt int) func(p *run.Plan, r *core.RNG, thorough bool) {
	return func(p *run.Plan, r *core.RNG, thorough bool) {
		mq, mp := 7, 4
		if thorough {
			mq, mp = 14, 6
		}
		s := lab.RandShape(r, 6, mq, 1, mp)
		s.CI = 0
		if nt > 1 {
			s.LogN = 4
		}
		if r.P(0.04) {
			// many moduli
			s.NQ, s.LogN = 20+r.N(20), 4
		}
		if nt == 1 && r.P(0.015) {
			s.Wide(r, 11)
		}
		if s.NQ > 1 && s.PB < 58 && r.P(0.3) {
			s.NP = 1 // the common case of one special modulus
		}
		huge := nt == 1 && r.P(0.0015)
		if huge {
			s.Huge(r)
			s.NP = 1
		}
		s.Put(p)
		p.Set("gamma", 1+r.N(min(s.NQ+s.NP+2, 9)))
		p.Set("tb", max(54, max(s.Q0, s.QB+2))+r.N(3))
		p.Set("tx", r.W(5, 2, 1)) // auxiliary primes beyond the necessary
		p.Set("tseed", r.N(1<<20))
		p.Set("logslots", r.N(s.LogN))
		p.Set("tasks", nt)
		ops := []string{"node", "gen", "secret", "pk", "rlk", "rot", "mul", "rotate", "switch", "rekey", "refused", "addsub"}
		n := (12 + r.N(14)) * nt
		if nt > 1 {
			n = (6 + r.N(8)) * nt
		}
		if huge {
			n = 8
		}
		for k := 0; k < n; k++ {
			op := ops[r.W(1, 1, 2, 1, 4, 4, 7, 7, 6, 4, 2, 1)]
			switch {
			case k < nt:
				op = "gen"
			case k < 2*nt:
				op = "secret"
			case k < 3*nt:
				op = "node"
			}
			t := r.N(nt)
			if k < 3*nt {
				t = k % nt
			}
			p.Add(t, op, int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.U64()>>2))
		}
		if nt == 1 && r.P(0.3) {
			for k := 0; k < 1+r.N(3); k++ {
				p.Ent = append(p.Ent, sched.EntFault{Step: r.N(n), At: r.N(2), Short: r.N(40) - 1, Sticky: r.P(0.3)})
			}
		}
		if nt > 1 {
			p.Sched, p.Mean = r.U64(), 0.5
		}
	}
}

type fastSec struct {
	sk   *rlwe.SecretKey
	ints []int64
}

type fastKey struct {
	rlk *frlwe.RelinKey
	rtk *frlwe.RotationKey
	k   int
	sec *fastSec
	val [2]*frlwe.SwitchingKey
	fat bool
}

type fastNode struct {
	eval *fckks.Evaluator
	ksw  *frlwe.KeySwitcher
	t    int
	used int
	recv []*ckks.Ciphertext // receivers in use
}

type fastGen struct {
	kg   *frlwe.KeyGenerator
	t    int
	used int
}

type fast struct {
	y     *Sys
	p     fckks.Parameters
	fp    frlwe.Parameters
	gens  []*fastGen
	secs  []*fastSec
	keys  []*fastKey
	nodes []*fastNode
	cts   []*ckks.Ciphertext // shared, never written after creation
}

func execFast(p *run.Plan, st *run.Stats) *run.Violation {
	w := &fast{y: &Sys{P: p, St: st}}
	nt := max(1, p.Get("tasks"))
	if !w.setup() {
		return w.y.Viol
	}
	exec := func(pre []sched.Preempt, record bool) {
		w.gens, w.secs, w.keys, w.nodes, w.cts = nil, nil, nil, nil, nil
		w.y.Tasks(nt, pre, record, nil, w.do)
	}
	if p.Pre == nil && p.Sched != 0 {
		exec(nil, true)
		if w.y.Viol != nil {
			return w.y.Viol
		}
		w.y.schedule(nt)
		w = &fast{y: w.y}
		if !w.setup() {
			return w.y.Viol
		}
	}
	exec(p.Pre, false)
	return w.y.Viol
}

// auxModuli chooses an auxiliary chain that holds the largest product.
func auxModuli(pl *run.Plan, q, p []uint64, n int) []uint64 {
	alpha, gamma := len(p), pl.Get("gamma")
	beta := (len(q) + alpha - 1) / alpha
	D := big.NewInt(1)
	for i := 0; i < beta; i++ {
		if d := lab.Prod(q[i*alpha : min((i+1)*alpha, len(q))]); d.Cmp(D) > 0 {
			D = d
		}
	}
	R := big.NewInt(1)
	all := append(append([]uint64(nil), p...), q...)
	for i := 0; i < len(all); i += gamma {
		if d := lab.Prod(all[i:min(i+gamma, len(all))]); d.Cmp(R) > 0 {
			R = d
		}
	}
	need := new(big.Int).Mul(D, R)
	need.Mul(need, big.NewInt(int64(8*beta*n)))
	pk := lab.NewPicker(uint64(pl.Get("tseed"))+5, 2*n)
	var res []uint64
	T := big.NewInt(1)
	for x := pl.Get("tx"); T.Cmp(need) <= 0 || x > 0; {
		if T.Cmp(need) > 0 {
			x--
		}
		b := pl.Get("tb")
		if b > 61 {
			b = 61
		}
		v := pk.Prime(b)
		res = append(res, v)
		T.Mul(T, new(big.Int).SetUint64(v))
	}
	return res
}

func (w *fast) setup() bool {
	pl := w.y.P
	shape := lab.GetShape(pl)
	q, p := shape.Moduli()
	n := 1 << uint(shape.LogN)
	T := auxModuli(pl, q, p, n)
	return w.y.Setup(-1, func() {
		w.p = fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: shape.LogN, Q: q, P: p, T: T, H: shape.H, Sigma: shape.SigmaF(), LogSlots: pl.Get("logslots"), DefaultScale: 1 << 30, Gamma: pl.Get("gamma")})
		w.fp = frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: shape.LogN, Q: q, P: p, T: T, H: shape.H, Sigma: shape.SigmaF(), Gamma: pl.Get("gamma")})
	})
}

func (k *fastKey) dig() (h uint64) {
	for _, s := range k.val {
		for _, v := range s.Value {
			for _, x := range v {
				h = digPoly(h, x, true)
			}
		}
	}
	return
}

// autoRows applies X -> X^g in coefficient form.
func autoRows(c lab.Rows, g uint64, mods []uint64) lab.Rows {
	n := len(c[0])
	res := make(lab.Rows, len(c))
	for i := range c {
		res[i] = make([]uint64, n)
		for j, v := range c[i] {
			k := int(uint64(j) * g % uint64(2*n))
			if k >= n {
				k -= n
				if v != 0 {
					v = mods[i] - v
				}
			}
			res[i][k] = v
		}
	}
	return res
}

// bound on the noise of one switch at a level.
func (w *fast) bound(lvl int, out []int64) *big.Int {
	p := w.p
	alpha := p.PCount()
	D := new(big.Int)
	for i := 0; i <= lvl; i += alpha {
		D.Add(D, lab.Prod(p.Q()[i:min(i+alpha, p.MaxLevel()+1)]))
	}
	D.Mul(D, big.NewInt(2*(int64(6*p.Sigma())+1)*int64(p.N())))
	D.Div(D, lab.Prod(p.P()))
	return D.Add(D, big.NewInt(2*(1+lab.L1(out))+1))
}

// small checks that the difference of two coefficient forms is within a bound.
func (w *fast) small(what string, got, want lab.Rows, b *big.Int) bool {
	y := w.y
	rq := w.p.RingQ()
	if b.BitLen() >= lab.Prod(rq.Modulus[:len(want)]).BitLen()-1 {
		y.St.Probe("bound beyond modulus")
		return true
	}
	noise := lab.MaxBig(lab.CRT(lab.SubRows(got, want, rq.Modulus), rq.Modulus))
	return y.Check(noise.Cmp(b) <= 0, "noise", "%s: noise of %d bits, bound %d bits", what, noise.BitLen(), b.BitLen())
}

func (w *fast) randCt(r *core.RNG, deg, lvl int, scale float64) *ckks.Ciphertext {
	ct := &ckks.Ciphertext{Ciphertext: &rlwe.Ciphertext{}, Scale: scale}
	for i := 0; i <= deg; i++ {
		v := randPoly(r, w.p.RingQ(), lvl)
		v.IsNTT = true
		ct.Value = append(ct.Value, v)
	}
	return ct
}

func (w *fast) do(t *sched.Task, s *run.Step) {
	y, st := w.y, w.y.St
	p := w.p
	rq := p.RingQ()
	r := core.NewRNG(core.H(uint64(s.Arg(3)), 5))
	maxQ := p.MaxLevel()
	faults := func() (n int64) {
		for _, v := range y.M.EntFaults {
			n += v
		}
		return
	}
	f0 := faults()
	step := func(f func()) bool {
		o := t.Step(s.ID, f)
		if o.Panic != "" {
			if faults() > f0 {
				st.Probe("no randomness: " + s.Op)
				return false
			}
			y.V("panic", "%s (step %d): %s (in %s)", s.Op, s.ID, o.Panic, o.Where)
			return false
		}
		return true
	}
	var gen *fastGen
	for i, c := 0, s.Mod(0, 1<<16); i < len(w.gens); i++ {
		if g := w.gens[(i+c)%len(w.gens)]; g.t == s.T {
			gen = g
			break
		}
	}
	var nd *fastNode
	for i, c := 0, s.Mod(0, 1<<16); i < len(w.nodes); i++ {
		if g := w.nodes[(i+c)%len(w.nodes)]; g.t == s.T {
			nd = g
			break
		}
	}
	var sec *fastSec
	if len(w.secs) > 0 {
		sec = w.secs[s.Mod(1, len(w.secs))]
	}
	key := func(relin, rot bool) *fastKey {
		for i, c := 0, s.Mod(1, 1<<16); i < len(w.keys); i++ {
			if k := w.keys[(i+c)%len(w.keys)]; k.rlk != nil && relin || k.rtk != nil && rot {
				return k
			}
		}
		return nil
	}
	skDig := func(x *fastSec) uint64 { return digQP(1, x.sk.Value, true) }
	// input is a shared ciphertext of degree one at least at the level, or a new one
	input := func() *ckks.Ciphertext {
		if len(w.cts) > 0 && r.P(0.6) {
			return w.cts[r.N(len(w.cts))]
		}
		ct := w.randCt(r, 1, r.N(maxQ+1), float64(uint64(1)<<uint(20+r.N(10))))
		if r.P(0.1) {
			// extreme residues
			for _, v := range ct.Value {
				for i := range v.Coeffs {
					x := []uint64{0, 1, rq.Modulus[i] - 1}[r.N(3)]
					for j := range v.Coeffs[i] {
						v.Coeffs[i][j] = x
					}
				}
			}
		}
		if len(w.cts) < 12 {
			w.cts = append(w.cts, ct)
		}
		return ct
	}
	keep := func(ct *ckks.Ciphertext) {
		if len(w.cts) < 12 {
			w.cts = append(w.cts, ct)
		}
	}
	phase := func(ct *ckks.Ciphertext, x *fastSec, lvl int) lab.Rows {
		var v []*ring.Poly
		for _, c := range ct.Value {
			v = append(v, &ring.Poly{Coeffs: c.Coeffs[:lvl+1], IsNTT: c.IsNTT})
		}
		return lab.Phase(rq, v, lab.EvalInts(rq, x.ints, lvl+1))
	}
	switch s.Op {
	case "gen":
		step(func() { w.gens = append(w.gens, &fastGen{kg: fckks.NewKeyGenerator(p), t: s.T}) })
	case "node":
		step(func() {
			w.nodes = append(w.nodes, &fastNode{eval: fckks.NewEvaluator(p), ksw: frlwe.NewKeySwitcher(w.fp), t: s.T})
		})
	case "secret":
		if gen == nil {
			return
		}
		var sk *rlwe.SecretKey
		var pk *rlwe.PublicKey
		k := r.N(5)
		if !step(func() {
			switch k {
			case 0:
				sk, pk = gen.kg.GenKeyPair()
			case 1:
				sk = gen.kg.GenSecretKeyWithHammingWeight(1 + r.N(p.N()))
			case 2:
				sk = gen.kg.GenSecretKeyGaussian()
			default:
				sk = gen.kg.GenSecretKey()
			}
		}) {
			return
		}
		_ = pk
		gen.used++
		x := lab.ReadSecret(p.Parameters.Parameters, sk)
		if !y.Check(x.Consistent(), "secret", "step %d: a secret has residues that disagree", s.ID) {
			return
		}
		w.secs = append(w.secs, &fastSec{sk, x.Ints})
	case "pk":
		if gen == nil || sec == nil {
			return
		}
		var pk *rlwe.PublicKey
		d0 := skDig(sec)
		if !step(func() { pk = gen.kg.GenPublicKey(sec.sk) }) {
			return
		}
		y.Check(skDig(sec) == d0, "input", "step %d: making a public key changed the secret", s.ID)
		B := int64(6*p.Sigma()) + 1
		e := lab.Evals(rq, pk.Value[0].Q.Coeffs, true, false)
		lab.MulAdd(rq, e, lab.Evals(rq, pk.Value[1].Q.Coeffs, true, false), lab.EvalInts(rq, sec.ints, maxQ+1))
		y.Check(lab.MaxAbs(lab.Small(lab.Coeffs(rq, e, true, false)[0], rq.Modulus[0])) <= B, "key-error", "step %d: the public key is not an encryption of zero", s.ID)
	case "rlk", "rot":
		if gen == nil || sec == nil || len(w.keys) > 40 {
			return
		}
		k := &fastKey{sec: sec}
		d0 := skDig(sec)
		n := p.N() / 2
		want := r.N(2*n) - n
		if r.P(0.3) {
			want = []int{0, 1, -1, n - 1, 1 - n, n, n + 1}[r.N(7)]
		}
		if !step(func() {
			if s.Op == "rlk" {
				k.rlk = gen.kg.GenRelinKey(sec.sk)
				k.val = k.rlk.Value
			} else {
				k.rtk = gen.kg.GenRotKey(want, sec.sk)
				k.val = k.rtk.Value
			}
		}) {
			return
		}
		k.k = want
		gen.used++
		y.Check(skDig(sec) == d0, "input", "step %d: making an evaluation key changed the secret", s.ID)
		w.keys = append(w.keys, k)
	case "refused":
		// calls that cannot be served leave the engine usable
		if nd == nil {
			return
		}
		k := key(true, true)
		if k == nil {
			return
		}
		dk := k.dig()
		bad := w.randCt(r, 1, maxQ, 1)
		o := t.Step(s.ID, func() {
			switch r.N(5) {
			case 3, 4:
				// keys that end early: too few digits, or too few blocks in one of them
				var cut [2]*frlwe.SwitchingKey
				which, dig := r.N(2), r.N(len(k.val[0].Value))
				for i := range cut {
					cut[i] = &frlwe.SwitchingKey{Value: append([][]*ring.Poly(nil), k.val[i].Value...)}
				}
				if r.P(0.5) {
					cut[which].Value = cut[which].Value[:dig]
				} else {
					x := cut[which].Value[dig]
					cut[which].Value[dig] = x[:r.N(len(x))]
				}
				if r.P(0.5) {
					nd.ksw.SwitchKey(maxQ, randPoly(r, rq, maxQ), cut[0], cut[1], rq.NewPoly(), rq.NewPoly())
				} else {
					nd.eval.MulRelin(w.randCt(r, 1, maxQ, 1), w.randCt(r, 1, maxQ, 1), &frlwe.RelinKey{Value: cut}, ckks.NewCiphertext(p.Parameters, 2, maxQ, 1))
				}
			case 0:
				nd.ksw.SwitchKey(maxQ, bad.Value[1], k.val[0], k.val[1], rq.NewPoly(), rq.NewPoly()) // in NTT form
			case 1:
				nd.eval.MulRelin(&ckks.Ciphertext{Ciphertext: w.randCt(r, 2, maxQ, 1).Ciphertext}, bad, &frlwe.RelinKey{Value: k.val}, ckks.NewCiphertext(p.Parameters, 2, maxQ, 1))
			default:
				short := &frlwe.SwitchingKey{Value: k.val[0].Value[:1]}
				short = &frlwe.SwitchingKey{Value: [][]*ring.Poly{short.Value[0][:0]}}
				a := randPoly(r, rq, maxQ)
				nd.ksw.SwitchKey(maxQ, a, short, k.val[1], rq.NewPoly(), rq.NewPoly())
			}
		})
		y.Check(o.Panic != "", "accepted", "step %d: a call with unusable arguments was served", s.ID)
		y.Check(k.dig() == dk, "input", "step %d: a refused call changed a key", s.ID)
		nd.used++
		st.Fault("call_refused")
	case "addsub":
		if nd == nil || sec == nil {
			return
		}
		a, b := input(), input()
		b = &ckks.Ciphertext{Ciphertext: b.Ciphertext, Scale: a.Scale}
		sub := r.P(0.5)
		var out *ckks.Ciphertext
		if !step(func() {
			if sub {
				out = nd.eval.SubNew(a, b)
			} else {
				out = nd.eval.AddNew(a, b)
			}
		}) {
			return
		}
		lvl := min(a.Level(), b.Level())
		pa, pb := phase(a, sec, lvl), phase(b, sec, lvl)
		want := lab.AddRows(pa, pb, rq.Modulus)
		if sub {
			want = lab.SubRows(pa, pb, rq.Modulus)
		}
		y.Check(out.Level() == lvl && rowsEqual(phase(out, sec, lvl), want), "sum", "step %d: wrong sum (difference %v)", s.ID, sub)
	case "mul":
		k := key(true, false)
		if nd == nil || k == nil {
			return
		}
		a, b := input(), input()
		da, db, dk := digCt(a.Ciphertext), digCt(b.Ciphertext), k.dig()
		lvl := min(a.Level(), b.Level())
		how, out := "new", (*ckks.Ciphertext)(nil)
		if r.P(0.5) {
			out, how = w.receiver(r, nd)
			lvl = min(lvl, out.Level())
		}
		nw := out == nil
		var classic *ckks.Ciphertext
		if !step(func() {
			if nw {
				out = nd.eval.MulRelinNew(a, b, k.rlk)
			} else {
				nd.eval.MulRelin(a, b, k.rlk, out)
			}
		}) {
			return
		}
		what := fmt.Sprintf("step %d: product of levels %d and %d into %s receiver (%d special moduli, block %d, %d auxiliary moduli, node used %d times)", s.ID, a.Level(), b.Level(), how, p.PCount(), w.fp.Gamma(), len(w.fp.RingT().Modulus), nd.used)
		nd.used++
		y.Check(digCt(a.Ciphertext) == da && digCt(b.Ciphertext) == db && k.dig() == dk, "input", "%s changed an input", what)
		if !y.Check(out.Level() == lvl && out.Degree() == 1, "shape", "%s has level %d and degree %d, not %d and 1", what, out.Level(), out.Degree(), lvl) {
			return
		}
		y.Check(out.Scale == a.Scale*b.Scale, "scale", "%s has scale %g, not %g", what, out.Scale, a.Scale*b.Scale)
		want := lab.Coeffs(rq, lab.Mul(rq, lab.Evals(rq, phase(a, k.sec, lvl), false, false), lab.Evals(rq, phase(b, k.sec, lvl), false, false)), true, false)
		bd := w.bound(lvl, k.sec.ints)
		if !w.small(what, phase(out, k.sec, lvl), want, bd) {
			return
		}
		if r.P(0.1) && gen != nil && s.T == gen.t {
			// the classical engine agrees
			if step(func() {
				rlk := gen.kg.KeyGenerator.GenRelinearizationKey(k.sec.sk, 1)
				classic = ckks.NewEvaluator(p.Parameters, rlwe.EvaluationKey{Rlk: rlk}).MulRelinNew(a, b)
			}) {
				w.small(what+" against the classical engine", phase(out, k.sec, lvl), phase(classic, k.sec, lvl), new(big.Int).Lsh(bd, 1))
			}
		}
		st.StateS("mul %d %d %d %d %s", p.PCount(), w.fp.Gamma(), lvl, maxQ, how)
		if nw {
			keep(out)
		}
	case "rotate":
		k := key(false, true)
		if nd == nil || k == nil {
			return
		}
		a := input()
		da, dk := digCt(a.Ciphertext), k.dig()
		lvl := a.Level()
		how, out := "new", (*ckks.Ciphertext)(nil)
		switch r.N(4) {
		case 0:
			out, how = w.receiver(r, nd)
			if out.Degree() != 1 {
				out.Value = out.Value[:2]
			}
			lvl = min(lvl, out.Level())
		case 1: // in place
			out, how = a.CopyNew(), "its own"
			a = out
		}
		nw := out == nil
		ref := autoRows(phase(a, k.sec, lvl), galois5(k.k, rq.NthRoot), rq.Modulus)
		sc := a.Scale
		if !step(func() {
			if nw {
				out = nd.eval.RotateNew(a, k.rtk)
			} else {
				nd.eval.Rotate(a, k.rtk, out)
			}
		}) {
			return
		}
		what := fmt.Sprintf("step %d: rotation by %d at level %d into %s receiver (%d special moduli, block %d, node used %d times)", s.ID, k.k, a.Level(), how, p.PCount(), w.fp.Gamma(), nd.used)
		nd.used++
		y.Check((out == a || digCt(a.Ciphertext) == da) && k.dig() == dk, "input", "%s changed an input", what)
		if !y.Check(out.Level() == lvl && out.Degree() == 1, "shape", "%s has level %d and degree %d, not %d and 1", what, out.Level(), out.Degree(), lvl) {
			return
		}
		y.Check(out.Scale == sc, "scale", "%s has scale %g, not %g", what, out.Scale, sc)
		w.small(what, phase(out, k.sec, lvl), ref, w.bound(lvl, k.sec.ints))
		st.StateS("rotate %d %d %d %d %s", p.PCount(), w.fp.Gamma(), lvl, maxQ, how)
		if nw {
			keep(out)
		}
	case "switch", "rekey":
		// from the square of the secret, or from the rotated one, to the secret's pre-image
		k := key(true, true)
		if nd == nil || k == nil {
			return
		}
		from, to := []lab.Rows{nil}, k.sec.ints
		if k.rlk != nil {
			from[0] = intPow(rq, k.sec.ints, 2)
		} else {
			from[0] = lab.EvalInts(rq, k.sec.ints, maxQ+1)
			to = lab.Auto(k.sec.ints, invOdd(galois5(k.k, rq.NthRoot), rq.NthRoot), false)
		}
		dk := k.dig()
		if s.Op == "switch" {
			lvl := r.N(maxQ + 1)
			a := randPoly(r, rq, lvl+r.N(maxQ-lvl+1))
			switch r.N(8) {
			case 0:
				for i := range a.Coeffs {
					for j := range a.Coeffs[i] {
						a.Coeffs[i][j] = uint64(j & 1)
					}
				}
			case 1:
				for i := range a.Coeffs {
					for j := range a.Coeffs[i] {
						a.Coeffs[i][j] = rq.Modulus[i] - 1 - uint64(j&1)
					}
				}
			}
			da := digPoly(1, a, true)
			c0, c1 := dirtyPoly(r, rq, lvl+r.N(maxQ-lvl+1)), dirtyPoly(r, rq, lvl+r.N(maxQ-lvl+1))
			if !step(func() { nd.ksw.SwitchKey(lvl, a, k.val[0], k.val[1], c0, c1) }) {
				return
			}
			what := fmt.Sprintf("step %d: switch at level %d (%d special moduli, block %d, %d auxiliary moduli, node used %d times)", s.ID, lvl, p.PCount(), w.fp.Gamma(), len(w.fp.RingT().Modulus), nd.used)
			nd.used++
			y.Check(digPoly(1, a, true) == da && k.dig() == dk, "input", "%s changed an input", what)
			got := lab.Evals(rq, c0.Coeffs[:lvl+1], false, false)
			lab.MulAdd(rq, got, lab.Evals(rq, c1.Coeffs[:lvl+1], false, false), lab.EvalInts(rq, to, lvl+1))
			want := lab.Mul(rq, lab.Evals(rq, a.Coeffs[:lvl+1], false, false), from[0][:lvl+1])
			w.small(what, lab.Coeffs(rq, got, true, false), lab.Coeffs(rq, want, true, false), w.bound(lvl, to))
			st.StateS("switch %d %d %d %d", p.PCount(), w.fp.Gamma(), lvl, maxQ)
			return
		}
		a := input()
		ntt := r.P(0.5)
		if !ntt {
			a = a.CopyNew()
			for i, v := range a.Value {
				a.Value[i] = &ring.Poly{Coeffs: lab.Coeffs(rq, v.Coeffs, true, false)}
			}
		}
		da := digCt(a.Ciphertext)
		lvl := a.Level()
		how, out := "new", (*ckks.Ciphertext)(nil)
		if r.P(0.4) {
			out, how = w.receiver(r, nd)
			if out.Degree() != 1 {
				out.Value = out.Value[:2]
			}
			lvl = min(lvl, out.Level())
			if !ntt {
				out = out.CopyNew() // products and rotations get only receivers in the scheme's own domain
			}
		}
		nw := out == nil
		if !step(func() {
			if nw {
				out = nd.eval.SwitchKeysNew(a, k.val)
			} else {
				nd.eval.SwitchKeys(a, k.val, out)
			}
		}) {
			return
		}
		what := fmt.Sprintf("step %d: re-keying at level %d NTT=%v into %s receiver (%d special moduli, block %d, node used %d times)", s.ID, a.Level(), ntt, how, p.PCount(), w.fp.Gamma(), nd.used)
		nd.used++
		y.Check(digCt(a.Ciphertext) == da && k.dig() == dk, "input", "%s changed an input", what)
		if !y.Check(out.Level() == lvl && out.Degree() == 1, "shape", "%s has level %d and degree %d, not %d and 1", what, out.Level(), out.Degree(), lvl) {
			return
		}
		y.Check(out.Scale == a.Scale, "scale", "%s has scale %g, not %g", what, out.Scale, a.Scale)
		want := lab.Evals(rq, a.Value[0].Coeffs[:lvl+1], ntt, false)
		lab.MulAdd(rq, want, lab.Evals(rq, a.Value[1].Coeffs[:lvl+1], ntt, false), from[0][:lvl+1])
		got := lab.Phase(rq, out.Value, lab.EvalInts(rq, to, lvl+1))
		w.small(what, got, lab.Coeffs(rq, want, true, false), w.bound(lvl, to))
		st.StateS("rekey %d %d %d %d %s %v", p.PCount(), w.fp.Gamma(), lvl, maxQ, how, ntt)
	}
}

func galois5(k int, nth uint64) uint64 {
	k %= int(nth)
	if k < 0 {
		k += int(nth)
	}
	return lab.PowMod(5, uint64(k), nth)
}

// receiver is a ciphertext of the node's own that earlier results may have been written to.
func (w *fast) receiver(r *core.RNG, nd *fastNode) (*ckks.Ciphertext, string) {
	if len(nd.recv) > 0 && r.P(0.5) {
		return nd.recv[r.N(len(nd.recv))], "a reused"
	}
	lvl := r.N(w.p.MaxLevel() + 1)
	ct := ckks.NewCiphertext(w.p.Parameters, 1+r.N(2), lvl, float64(1+r.N(1000)))
	how := "an empty"
	if r.P(0.5) {
		ct = w.randCt(r, 1+r.N(2), lvl, float64(1+r.N(1000)))
		how = "a full"
	}
	if len(nd.recv) < 3 {
		nd.recv = append(nd.recv, ct)
	}
	return ct, how
}
