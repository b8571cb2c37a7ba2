package worlds

import (
	"fmt"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
	"vsim/lab"
	"vsim/run"
	"vsim/sched"
)

// Key authorities generate secrets and evaluation keys of every kind in any order, on generators that have been used,
// starved of randomness or refused before; workers apply the keys through every classical key-switching path, on key
// switchers that are new, copied or used.

func init() {
	run.Register(&run.Prop{
		ID: "C12", Quick: 20000, Thorough: 250000,
		Worlds: []*run.World{
			{Kind: "authority", Weight: 3, Gen: genAuth(1), Exec: execAuth},
			{Kind: "parallel", Weight: 1, Gen: genAuth(3), Exec: execAuth},
		},
		Rule:   "one evaluation is one key component whose exact error was extracted, one secret's support, or one key application whose exact noise was compared with its bound; distinct are (key kind, levels, digits, path, domain) states and interleavings",
		Real:   []string{"rlwe.KeyGenerator", "rlwe.KeySwitcher and its copies", "rlwe.SwitchCiphertextRingDegree", "ring samplers, NTT, basis extension, decomposition, automorphisms"},
		Stub:   []string{"crypto/rand (simulated device: per-call streams, errors, short reads)", "goroutine scheduling (cooperative, seeded)"},
		Assume: []string{"the reference computes in the library's NTT evaluation domain and returns through it"},
	})
}

func genAuth(nt int) func(p *run.Plan, r *core.RNG, thorough bool) {
	return func(p *run.Plan, r *core.RNG, thorough bool) {
		mq, mp := 5, 3
		if thorough {
			mq, mp = 8, 5
		}
		s := lab.RandShape(r, 6, mq, 1, mp)
		if r.P(0.08) {
			s.NP = 0
		}
		if r.P(0.03) {
			s.Long(r)
		} else if r.P(0.015) {
			s.Wide(r, 11)
		}
		huge := nt == 1 && r.P(0.001)
		if huge {
			s.Huge(r)
		}
		s.Put(p)
		p.Set("tasks", nt)
		ops := []string{"keygen", "secret", "pk", "rlk", "rot", "rots", "conj", "galois", "inner", "swk", "swap", "apply", "hoist", "ks", "degree", "refused", "extend"}
		n := (12 + r.N(14)) * nt
		if huge {
			n = 6 + r.N(4)
		}
		for k := 0; k < n; k++ {
			op := ops[r.W(2, 5, 2, 3, 2, 3, 1, 2, 1, 6, 2, 16, 6, 3, 3, 2, 2)]
			if k < nt {
				op = "keygen"
			} else if k < 2*nt {
				op = "secret"
			}
			t := r.N(nt)
			if k < 2*nt {
				t = k % nt
			}
			p.Add(t, op, int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.U64()>>2))
		}
		if nt == 1 && r.P(0.3) {
			for k := 0; k < 1+r.N(3); k++ {
				p.Ent = append(p.Ent, sched.EntFault{Step: r.N(n), At: r.N(2), Short: r.N(40) - 1, Sticky: r.P(0.3)})
			}
		}
		if nt > 1 {
			p.Sched, p.Mean = r.U64(), 0.5
		}
	}
}

type authSec struct {
	sk   *rlwe.SecretKey
	ints []int64
	dom  int // index of its parameters
	how  string
}

type authKey struct {
	swk     *rlwe.SwitchingKey
	in, out []int64 // integer secrets, in the key's ring
	lq, lp  int
	inSec   *authSec // for switching keys between secrets
	outSec  *authSec
	how     string
}

type authKG struct {
	kg   rlwe.KeyGenerator
	t    int
	used int
}

type authKS struct {
	ks   *rlwe.KeySwitcher
	t    int
	how  string
	used int
}

type auth struct {
	y    *Sys
	doms []rlwe.Parameters // 0: the main one; others: smaller degree, fewer moduli, the conjugate-invariant subring
	name []string
	ci   int // index of the conjugate-invariant domain, or -1
	kgs  []*authKG
	skg  [][]rlwe.KeyGenerator // generators of the other domains, per task
	secs []*authSec
	keys []*authKey
	kss  []*authKS
}

func execAuth(p *run.Plan, st *run.Stats) *run.Violation {
	w := &auth{y: &Sys{P: p, St: st}}
	nt := max(1, p.Get("tasks"))
	if !w.setup() {
		return w.y.Viol
	}
	exec := func(pre []sched.Preempt, record bool) {
		w.kgs, w.secs, w.keys, w.kss = nil, nil, nil, nil
		w.skg = make([][]rlwe.KeyGenerator, nt)
		for k := range w.skg {
			w.skg[k] = make([]rlwe.KeyGenerator, len(w.doms))
		}
		w.y.Tasks(nt, pre, record, nil, w.do)
	}
	if p.Pre == nil && p.Sched != 0 {
		exec(nil, true)
		if w.y.Viol != nil {
			return w.y.Viol
		}
		w.y.schedule(nt)
		w = &auth{y: w.y}
		if !w.setup() {
			return w.y.Viol
		}
	}
	exec(p.Pre, false)
	return w.y.Viol
}

func (w *auth) setup() bool {
	shape := lab.GetShape(w.y.P)
	w.ci = -1
	return w.y.Setup(-1, func() {
		w.doms, w.name = []rlwe.Parameters{shape.RLWE()}, []string{"main"}
		add := func(name string, l rlwe.ParametersLiteral) {
			q, err := rlwe.NewParametersFromLiteral(l)
			if err != nil {
				panic(fmt.Sprint("derived parameters refused: ", err))
			}
			w.doms, w.name = append(w.doms, q), append(w.name, name)
		}
		l := shape.Literal()
		l.H = 0
		if shape.NQ > 1 || shape.NP > 1 {
			m := l
			m.Q = l.Q[:1+shape.Seed%shape.NQ]
			if shape.NP > 0 {
				m.P = l.P[:1+shape.Seed/16%shape.NP]
			}
			add("fewer", m)
		}
		if shape.LogN > 4 && shape.CI == 0 {
			m := l
			m.LogN--
			add("small", m)
			if shape.NQ > 1 {
				m.Q = l.Q[:1+shape.Seed/4%shape.NQ]
				add("small fewer", m)
			}
			m = l
			m.LogN--
			m.RingType = ring.ConjugateInvariant
			w.ci = len(w.doms)
			add("ci", m)
		}
	})
}

// lift writes a secret in the main ring.
func (w *auth) lift(s *authSec) []int64 {
	n := w.doms[0].N()
	if len(s.ints) == n {
		return s.ints
	}
	if s.dom == w.ci {
		return lab.Unfold(s.ints)
	}
	return lab.Spread(s.ints, n/len(s.ints))
}

func intPow(r *ring.Ring, v []int64, k int) lab.Rows {
	e := lab.EvalInts(r, v, len(r.Modulus))
	a := e.Clone()
	for ; k > 1; k-- {
		a = lab.Mul(r, a, e)
	}
	return a
}

// checkKey extracts the exact error of every component of a switching key: b + a*out - P*g_i*in.
func (w *auth) checkKey(what string, swk *rlwe.SwitchingKey, in lab.Rows, out []int64, lq, lp int) bool {
	y := w.y
	p := w.doms[0]
	rq, rp := p.RingQ(), p.RingP()
	alpha := lp + 1
	beta := (lq + alpha) / alpha
	B := int64(6*p.Sigma()) + 1
	if !y.Check(len(swk.Value) == beta, "shape", "%s has %d components, not %d", what, len(swk.Value), beta) {
		return false
	}
	outQ := lab.EvalInts(rq, out, lq+1)
	outP := lab.EvalInts(rp, out, lp+1)
	P := lab.Prod(p.P()[:lp+1])
	pin := lab.ScaleRows(in[:lq+1], P, rq.Modulus)
	for i, v := range swk.Value {
		if !y.Check(v[0].Q.Level() == lq && v[1].Q.Level() == lq && v[0].P.Level() == lp && v[1].P.Level() == lp, "shape", "%s: component %d has levels %d/%d and %d/%d, not %d/%d", what, i,
			v[0].Q.Level(), v[0].P.Level(), v[1].Q.Level(), v[1].P.Level(), lq, lp) {
			return false
		}
		eq := lab.Evals(rq, v[0].Q.Coeffs, true, true)
		lab.MulAdd(rq, eq, lab.Evals(rq, v[1].Q.Coeffs, true, true), outQ)
		for j := i * alpha; j < (i+1)*alpha && j <= lq; j++ {
			eq[j] = lab.SubRows(lab.Rows{eq[j]}, lab.Rows{pin[j]}, rq.Modulus[j:])[0]
		}
		ep := lab.Evals(rp, v[0].P.Coeffs, true, true)
		lab.MulAdd(rp, ep, lab.Evals(rp, v[1].P.Coeffs, true, true), outP)
		ok := true
		var e0 []int64
		for k, rows := range []lab.Rows{lab.Coeffs(rq, eq, true, false), lab.Coeffs(rp, ep, true, false)} {
			mods := rq.Modulus
			if k == 1 {
				mods = rp.Modulus
			}
			for j := range rows {
				e := lab.Small(rows[j], mods[j])
				if e0 == nil {
					e0 = e
				}
				for c := range e {
					ok = ok && e[c] == e0[c]
				}
			}
		}
		if !y.Check(ok && lab.MaxAbs(e0) <= B, "key-error", "%s: component %d is not a valid encryption (largest error %d, allowed %d, consistent %v)", what, i, lab.MaxAbs(e0), B, ok) {
			return false
		}
	}
	return true
}

// noiseBound of one application over digits of lvl at key levels.
func (w *auth) noiseBound(lvl, lp int, out []int64) (num *big.Int, round int64) {
	p := w.doms[0]
	alpha := lp + 1
	beta := (lvl + alpha) / alpha
	B := int64(6*p.Sigma()) + 1
	cf := int64(1)
	if p.RingType() == ring.ConjugateInvariant {
		cf = 2
	}
	D := new(big.Int)
	for i := 0; i < beta; i++ {
		d := lab.Prod(p.Q()[i*alpha : min((i+1)*alpha, p.MaxLevel()+1)])
		D.Add(D, d)
	}
	D.Mul(D, big.NewInt(2*cf*B*int64(p.N())))
	return D, 2 * (1 + cf*lab.L1(out))
}

func (w *auth) do(t *sched.Task, s *run.Step) {
	y, st := w.y, w.y.St
	p := w.doms[0]
	rq := p.RingQ()
	ci := p.RingType() == ring.ConjugateInvariant
	r := core.NewRNG(core.H(uint64(s.Arg(3)), 5))
	maxQ, maxP := p.MaxLevel(), p.PCount()-1
	faults := func() (n int64) {
		for _, v := range y.M.EntFaults {
			n += v
		}
		return
	}
	f0 := faults()
	step := func(f func()) bool {
		o := t.Step(s.ID, f)
		if o.Panic != "" {
			if faults() > f0 {
				st.Probe("no randomness: " + s.Op)
				return false
			}
			y.V("panic", "%s (step %d): %s (in %s)", s.Op, s.ID, o.Panic, o.Where)
			return false
		}
		return true
	}
	// engines belong to the task that made them; anyone may copy one
	var kg *authKG
	for i, c := 0, s.Arg(0); i < len(w.kgs); i++ {
		if g := w.kgs[(i+int(c))%len(w.kgs)]; g.t == s.T {
			kg = g
			break
		}
	}
	var ks *authKS
	for i, c := 0, s.Arg(0); i < len(w.kss); i++ {
		if g := w.kss[(i+int(c))%len(w.kss)]; g.t == s.T {
			ks = g
			break
		}
	}
	// secret of the main domain (full=true) or of any but the conjugate-invariant one
	sec := func(k int, f func(*authSec) bool) *authSec {
		for i := range w.secs {
			if x := w.secs[(i+k)%len(w.secs)]; f(x) {
				return x
			}
		}
		return nil
	}
	isMain := func(x *authSec) bool { return x.dom == 0 }
	keep := func(k *authKey) {
		w.keys = append(w.keys, k)
		st.StateS("key %s %d %d %d", k.how, k.lq, k.lp, min(kg.used, 3))
	}
	skDig := func(x *authSec) uint64 { return digQP(1, x.sk.Value, true) }
	switch s.Op {
	case "keygen":
		step(func() { w.kgs = append(w.kgs, &authKG{kg: rlwe.NewKeyGenerator(p), t: s.T}) })
		return
	case "ks":
		if maxP < 0 {
			return
		}
		if len(w.kss) > 0 && r.P(0.5) {
			src := w.kss[s.Mod(1, len(w.kss))]
			step(func() { w.kss = append(w.kss, &authKS{ks: src.ks.ShallowCopy(), t: s.T, how: "copy"}) })
			return
		}
		step(func() { w.kss = append(w.kss, &authKS{ks: rlwe.NewKeySwitcher(p), t: s.T, how: "new"}) })
		return
	case "secret":
		if kg == nil {
			return
		}
		dom := 0
		if r.P(0.4) {
			dom = s.Mod(1, len(w.doms))
		}
		dp := w.doms[dom]
		kind := r.N(4)
		hw := 1 + r.N(dp.N()+dp.N()/4)
		prob := []float64{0.5, 1.0 / 3, 0.1, 0.75, 0.9}[r.N(5)]
		var sk *rlwe.SecretKey
		pair := false
		var pk *rlwe.PublicKey
		if !step(func() {
			g := kg.kg
			if dom != 0 {
				if w.skg[s.T][dom] == nil {
					w.skg[s.T][dom] = rlwe.NewKeyGenerator(dp)
				}
				g = w.skg[s.T][dom]
			}
			switch kind {
			case 0:
				if r.P(0.3) {
					pair = true
					sk, pk = g.GenKeyPair()
				} else {
					sk = g.GenSecretKey()
				}
			case 1:
				sk = g.GenSecretKeyGaussian()
			case 2:
				sk = g.GenSecretKeyWithDistrib(prob)
			default:
				sk = g.GenSecretKeyWithHammingWeight(hw)
			}
		}) {
			return
		}
		kg.used++
		what := fmt.Sprintf("step %d: secret of kind %d (%s parameters)", s.ID, kind, w.name[dom])
		if !y.Check(sk.Value.Q.Level() == dp.MaxLevel() && (dp.PCount() == 0 || sk.Value.P.Level() == dp.PCount()-1), "shape", "%s has levels %d", what, sk.Value.Q.Level()) {
			return
		}
		x := lab.ReadSecret(dp, sk)
		if !y.Check(x.Consistent(), "secret", "%s has residues that disagree", what) {
			return
		}
		lim, nz := int64(1), int64(0)
		for _, c := range x.Ints {
			if c != 0 {
				nz++
			}
		}
		switch kind {
		case 0:
			y.Check(int(nz) == dp.HammingWeight(), "secret", "%s has %d non-zero coefficients, not %d", what, nz, dp.HammingWeight())
		case 1:
			lim = int64(6*dp.Sigma()) + 1
		case 3:
			y.Check(int(nz) == min(hw, dp.N()), "secret", "%s has %d non-zero coefficients, not %d", what, nz, hw)
		}
		y.Check(lab.MaxAbs(x.Ints) <= lim, "secret", "%s has a coefficient of size %d", what, lab.MaxAbs(x.Ints))
		z := &authSec{sk: sk, ints: x.Ints, dom: dom, how: fmt.Sprint(kind)}
		w.secs = append(w.secs, z)
		if pair {
			w.checkPK(fmt.Sprintf("step %d: public key of a pair (%s parameters)", s.ID, w.name[dom]), dp, pk, z)
		}
		return
	case "pk":
		x := sec(s.Mod(1, 1<<16), isMain)
		if kg == nil || x == nil {
			return
		}
		d0 := skDig(x)
		var pk *rlwe.PublicKey
		if !step(func() { pk = kg.kg.GenPublicKey(x.sk) }) {
			return
		}
		kg.used++
		what := fmt.Sprintf("step %d: public key", s.ID)
		y.Check(skDig(x) == d0, "input", "%s: the secret was changed", what)
		w.checkPK(what, p, pk, x)
		return
	}
	if maxP < 0 {
		// without special moduli there are no evaluation keys, and asking for one harms nothing
		x := sec(s.Mod(1, 1<<16), isMain)
		if s.Op == "refused" && kg != nil && x != nil {
			o := t.Step(s.ID, func() { kg.kg.GenRelinearizationKey(x.sk, 1) })
			y.Check(o.Panic != "", "accepted", "step %d: a relinearisation key without special moduli", s.ID)
			st.Fault("call_refused")
		}
		return
	}
	switch s.Op {
	case "refused":
		x := sec(s.Mod(1, 1<<16), isMain)
		if kg == nil || x == nil {
			return
		}
		// a secret that lacks rows cannot be used; the attempt leaves the generator usable
		bad := &rlwe.SecretKey{Value: rlwe.PolyQP{Q: &ring.Poly{Coeffs: [][]uint64{}}, P: x.sk.Value.P}}
		d0 := skDig(x)
		o := t.Step(s.ID, func() {
			switch r.N(3) {
			case 0:
				kg.kg.GenRelinearizationKey(bad, 1)
			case 1:
				kg.kg.GenSwitchingKey(x.sk, bad)
			default:
				kg.kg.GenRotationKeysForRotations([]int{1}, false, bad)
			}
		})
		y.Check(o.Panic != "", "accepted", "step %d: a key was generated for an empty secret", s.ID)
		y.Check(skDig(x) == d0, "input", "step %d: a refused call changed a secret", s.ID)
		st.Fault("call_refused")
	case "rlk":
		x := sec(s.Mod(1, 1<<16), isMain)
		if kg == nil || x == nil {
			return
		}
		deg := 1 + r.W(6, 3, 2, 1, 1)
		d0 := skDig(x)
		var rlk *rlwe.RelinearizationKey
		if !step(func() { rlk = kg.kg.GenRelinearizationKey(x.sk, deg) }) {
			return
		}
		kg.used++
		what := fmt.Sprintf("step %d: relinearisation key", s.ID)
		y.Check(skDig(x) == d0, "input", "%s: the secret was changed", what)
		if !y.Check(len(rlk.Keys) == deg, "shape", "%s holds %d keys, not %d", what, len(rlk.Keys), deg) {
			return
		}
		for i, k := range rlk.Keys {
			if !w.checkKey(fmt.Sprintf("%s for degree %d", what, i+2), k, intPow(rq, x.ints, i+2), x.ints, maxQ, maxP) {
				return
			}
		}
		keep(&authKey{swk: rlk.Keys[0], in: nil, out: x.ints, lq: maxQ, lp: maxP, how: "relin", inSec: x})
	case "rot", "rots", "conj", "galois", "inner":
		x := sec(s.Mod(1, 1<<16), isMain)
		if kg == nil || x == nil {
			return
		}
		nth := rq.NthRoot
		g5 := func(k int) uint64 {
			k %= int(nth)
			if k < 0 {
				k += int(nth)
			}
			return lab.PowMod(5, uint64(k), nth)
		}
		type want struct {
			g   uint64
			swk *rlwe.SwitchingKey
		}
		var ws []want
		d0 := skDig(x)
		draw := func() int {
			switch r.N(4) {
			case 0:
				return r.N(8) - 4
			case 1:
				return r.N(4*p.N()) - 2*p.N()
			case 2:
				return 1 << uint(r.N(p.LogN()))
			}
			return -(1 << uint(r.N(p.LogN())))
		}
		ok := false
		switch s.Op {
		case "rot":
			k := draw()
			var swk *rlwe.SwitchingKey
			ok = step(func() { swk = kg.kg.GenSwitchingKeyForRotationBy(k, x.sk) })
			ws = []want{{g5(k), swk}}
		case "conj":
			if ci {
				o := t.Step(s.ID, func() { kg.kg.GenSwitchingKeyForRowRotation(x.sk) })
				y.Check(o.Panic != "", "accepted", "step %d: a conjugation key in the conjugate-invariant ring", s.ID)
				st.Fault("call_refused")
				return
			}
			var swk *rlwe.SwitchingKey
			ok = step(func() { swk = kg.kg.GenSwitchingKeyForRowRotation(x.sk) })
			ws = []want{{nth - 1, swk}}
		case "galois":
			g := r.U64()%nth | 1
			if ci {
				g = g&^3 | 1 // rotations only
			}
			var swk *rlwe.SwitchingKey
			ok = step(func() { swk = kg.kg.GenSwitchingKeyForGalois(g, x.sk) })
			ws = []want{{g, swk}}
		default:
			var set *rlwe.RotationKeySet
			var els []uint64
			if s.Op == "inner" {
				for i := 0; i < p.LogN()-1; i++ {
					els = append(els, g5(1<<uint(i)))
				}
				if ci {
					els = append(els, g5(1<<uint(p.LogN()-1)))
				} else {
					els = append(els, nth-1)
				}
				ok = step(func() { set = kg.kg.GenRotationKeysForInnerSum(x.sk) })
			} else {
				var ks []int
				for i := 0; i < 1+r.N(3); i++ {
					ks = append(ks, draw())
					els = append(els, g5(ks[i]))
				}
				conj := !ci && r.P(0.5)
				if conj {
					els = append(els, nth-1)
				}
				if r.P(0.5) {
					ok = step(func() { set = kg.kg.GenRotationKeysForRotations(ks, conj, x.sk) })
				} else {
					gs := append([]uint64(nil), els...)
					ok = step(func() { set = kg.kg.GenRotationKeys(gs, x.sk) })
					for i := range gs {
						y.Check(!ok || gs[i] == els[i], "input", "step %d: the list of rotations was changed", s.ID)
					}
				}
			}
			if !ok {
				return
			}
			dist := map[uint64]bool{}
			for _, g := range els {
				if !dist[g] {
					dist[g] = true
					k, in := set.GetRotationKey(g)
					if !y.Check(in && k != nil, "shape", "step %d: the rotation key set lacks the key for %d", s.ID, g) {
						return
					}
					ws = append(ws, want{g, k})
				}
			}
			y.Check(len(set.Keys) == len(dist), "shape", "step %d: the rotation key set holds %d keys, not %d", s.ID, len(set.Keys), len(dist))
		}
		if !ok {
			return
		}
		kg.used++
		y.Check(skDig(x) == d0, "input", "step %d: generating a rotation key changed the secret", s.ID)
		for _, z := range ws {
			out := lab.Auto(x.ints, invOdd(z.g, nth), ci)
			if !w.checkKey(fmt.Sprintf("step %d: key for the automorphism %d (%s)", s.ID, z.g, s.Op), z.swk, lab.EvalInts(rq, x.ints, maxQ+1), out, maxQ, maxP) {
				return
			}
		}
		z := ws[r.N(len(ws))]
		keep(&authKey{swk: z.swk, in: x.ints, out: lab.Auto(x.ints, invOdd(z.g, nth), ci), lq: maxQ, lp: maxP, how: "auto"})
	case "swk":
		notCI := func(x *authSec) bool { return x.dom != w.ci }
		a, b := sec(s.Mod(1, 1<<16), notCI), sec(s.Mod(2, 1<<16), notCI)
		if kg == nil || a == nil || b == nil {
			return
		}
		if len(a.ints) < p.N() && len(b.ints) < p.N() {
			return // the key lives in the larger of the two rings, which has to be the generator's
		}
		la, lb := a.sk.Value.Q.Level(), b.sk.Value.Q.Level()
		if len(a.ints) > len(b.ints) && la < lb {
			return
		}
		da, db := skDig(a), skDig(b)
		var swk *rlwe.SwitchingKey
		if !step(func() { swk = kg.kg.GenSwitchingKey(a.sk, b.sk) }) {
			return
		}
		kg.used++
		what := fmt.Sprintf("step %d: switching key from a %s to a %s secret", s.ID, w.name[a.dom], w.name[b.dom])
		y.Check(skDig(a) == da && skDig(b) == db, "input", "%s: a secret was changed", what)
		in, out := w.lift(a), w.lift(b)
		lp := b.sk.Value.P.Level()
		if !w.checkKey(what, swk, lab.EvalInts(rq, in, lb+1), out, lb, lp) {
			return
		}
		keep(&authKey{swk: swk, in: in, out: out, lq: lb, lp: lp, inSec: a, outSec: b, how: fmt.Sprintf("swk %s %s", w.name[a.dom], w.name[b.dom])})
	case "swap":
		if w.ci < 0 {
			return
		}
		a := sec(s.Mod(1, 1<<16), isMain)
		b := sec(s.Mod(2, 1<<16), func(x *authSec) bool { return x.dom == w.ci })
		if kg == nil || a == nil || b == nil {
			return
		}
		da, db := skDig(a), skDig(b)
		var s2c, c2s *rlwe.SwitchingKey
		bridge := r.P(0.3)
		if !step(func() {
			if bridge {
				cp, err := ckks.NewParameters(p, p.LogN()-1, 1<<30)
				if err != nil {
					panic(err)
				}
				x, z := ckks.NewKeyGenerator(cp).GenSwitchingKeysForBridge(a.sk, b.sk)
				s2c, c2s = &x.SwitchingKey, &z.SwitchingKey
				return
			}
			s2c, c2s = kg.kg.GenSwitchingKeysForRingSwap(a.sk, b.sk)
		}) {
			return
		}
		kg.used++
		y.Check(skDig(a) == da && skDig(b) == db, "input", "step %d: generating ring-swap keys changed a secret", s.ID)
		in, out := a.ints, w.lift(b)
		if !w.checkKey(fmt.Sprintf("step %d: ring-swap key to the conjugate-invariant ring", s.ID), s2c, lab.EvalInts(rq, in, maxQ+1), out, maxQ, maxP) {
			return
		}
		if !w.checkKey(fmt.Sprintf("step %d: ring-swap key from the conjugate-invariant ring", s.ID), c2s, lab.EvalInts(rq, out, maxQ+1), in, maxQ, maxP) {
			return
		}
		keep(&authKey{swk: s2c, in: in, out: out, lq: maxQ, lp: maxP, how: "to ci"})
		keep(&authKey{swk: c2s, in: out, out: in, lq: maxQ, lp: maxP, how: "from ci"})
	case "apply", "hoist":
		if len(w.keys) == 0 {
			return
		}
		if ks == nil {
			if !step(func() {
				ks = &authKS{ks: rlwe.NewKeySwitcher(p), t: s.T, how: "new"}
				w.kss = append(w.kss, ks)
			}) {
				return
			}
		}
		w.apply(t, s, r, ks, step)
	case "extend":
		if ks != nil && ks.ks.BasisExtender != nil && p.N() <= 1<<11 {
			w.extend(s, r, ks, step)
		}
	case "degree":
		w.degree(t, s, r, ks, step)
	}
}

// extend changes the basis of a polynomial, or divides it by one of its bases, with the extender of a switcher in
// use, and compares with integers.
func (w *auth) extend(s *run.Step, r *core.RNG, ks *authKS, step func(func()) bool) {
	y, st := w.y, w.y.St
	p := w.doms[0]
	rq, rp := p.RingQ(), p.RingP()
	lq, lp := r.N(p.MaxLevel()+1), r.N(p.PCount())
	be := ks.ks.BasisExtender
	fill := func(rg *ring.Ring, lvl, top int) *ring.Poly {
		x := rg.NewPolyLvl(lvl + r.N(top-lvl+1))
		for i := range x.Coeffs {
			for j := range x.Coeffs[i] {
				x.Coeffs[i][j] = r.U64() % rg.Modulus[i]
			}
			// both ends of the range
			x.Coeffs[i][0] = 0
			x.Coeffs[i][1] = rg.Modulus[i] - 1
		}
		return x
	}
	ints := func(rg *ring.Ring, x *ring.Poly, lvl int, ntt bool) []*big.Int {
		m := lab.Prod(rg.Modulus[:lvl+1])
		v := lab.CRT(lab.Coeffs(rg, x.Coeffs[:lvl+1], ntt, false), rg.Modulus)
		for _, c := range v {
			if c.Sign() < 0 {
				c.Add(c, m)
			}
		}
		return v
	}
	q, pp := fill(rq, lq, p.MaxLevel()), fill(rp, lp, p.PCount()-1)
	kind := r.N(5)
	Q, P := lab.Prod(p.Q()[:lq+1]), lab.Prod(p.P()[:lp+1])
	ntt := kind == 3
	x, z := ints(rq, q, lq, ntt), ints(rp, pp, lp, ntt)
	qd, pd := digPoly(1, q, true), digPoly(1, pp, true)
	intoQ := kind != 0 && kind != 4
	orig, rg, lvl := pp, rp, lp
	if intoQ {
		orig, rg, lvl = q, rq, lq
	}
	out := dirtyPoly(r, rg, lvl)
	inPlace := kind >= 2 && r.P(0.4)
	if inPlace {
		out = orig
	}
	name := [...]string{"ModUpQtoP", "ModUpPtoQ", "ModDownQPtoQ", "ModDownQPtoQNTT", "ModDownQPtoP"}[kind]
	if !step(func() {
		switch kind {
		case 0:
			be.ModUpQtoP(lq, lp, q, out)
		case 1:
			be.ModUpPtoQ(lp, lq, pp, out)
		case 2:
			be.ModDownQPtoQ(lq, lp, q, pp, out)
		case 3:
			be.ModDownQPtoQNTT(lq, lp, q, pp, out)
		default:
			be.ModDownQPtoP(lq, lp, q, pp, out)
		}
	}) {
		return
	}
	what := fmt.Sprintf("step %d: %s at levels %d and %d (in place %v)", s.ID, name, lq, lp, inPlace)
	st.StateS("extend %d %d %d %v", kind, lq, lp, inPlace)
	if !y.Check((out == q || digPoly(1, q, true) == qd) && (out == pp || digPoly(1, pp, true) == pd), "input", "%s changed its input", what) {
		return
	}
	got := ints(rg, out, lvl, ntt)
	tgt := P // modulus of the result
	if intoQ {
		tgt = Q
	}
	half := new(big.Int).Rsh(tgt, 1)
	for j, g := range got {
		var want, unit *big.Int
		switch kind {
		case 0:
			want, unit = x[j], Q
		case 1:
			want, unit = z[j], P
		default:
			// the integer with residues x modulo Q and z modulo P
			X := new(big.Int).Sub(x[j], z[j])
			X.Mul(X, new(big.Int).ModInverse(P, Q))
			X.Mod(X, Q)
			X.Mul(X, P)
			X.Add(X, z[j])
			d := P
			if kind == 4 {
				d = Q
			}
			want, unit = X.Quo(X, d), big.NewInt(1)
		}
		ok := false
		for k := int64(-1); k <= 1 && !ok; k++ {
			e := new(big.Int).Mul(unit, big.NewInt(k))
			e.Add(e, want).Sub(e, g)
			ok = e.Mod(e, tgt).Sign() == 0
		}
		if !ok {
			e := new(big.Int).Sub(g, want)
			if e.Mod(e, tgt); e.Cmp(half) > 0 {
				e.Sub(e, tgt)
			}
			y.V("basis", "%s: coefficient %d is off by %d bits (one unit has %d)", what, j, e.BitLen(), unit.BitLen())
			return
		}
	}
}

// invOdd inverts an odd residue modulo a power of two.
func invOdd(g, m uint64) uint64 {
	x := g
	for i := 0; i < 6; i++ {
		x *= 2 - g*x
	}
	return x % m
}

func (w *auth) checkPK(what string, p rlwe.Parameters, pk *rlwe.PublicKey, x *authSec) {
	y := w.y
	B := int64(6*p.Sigma()) + 1
	var e0 []int64
	ok := true
	one := func(r *ring.Ring, b, a *ring.Poly) {
		if !y.Check(b.Level() == len(r.Modulus)-1 && a.Level() == b.Level(), "shape", "%s lacks rows", what) {
			return
		}
		e := lab.Evals(r, b.Coeffs, true, false)
		lab.MulAdd(r, e, lab.Evals(r, a.Coeffs, true, false), lab.EvalInts(r, x.ints, len(r.Modulus)))
		for j, row := range lab.Coeffs(r, e, true, false) {
			v := lab.Small(row, r.Modulus[j])
			if e0 == nil {
				e0 = v
			}
			for c := range v {
				ok = ok && v[c] == e0[c]
			}
		}
	}
	one(p.RingQ(), pk.Value[0].Q, pk.Value[1].Q)
	if p.PCount() > 0 {
		one(p.RingP(), pk.Value[0].P, pk.Value[1].P)
	}
	y.Check(ok && lab.MaxAbs(e0) <= B, "key-error", "%s is not an encryption of zero (largest error %d, allowed %d, consistent %v)", what, lab.MaxAbs(e0), B, ok)
}

// dirtyPoly is a receiver that has been used.
func dirtyPoly(r *core.RNG, rg *ring.Ring, lvl int) *ring.Poly {
	p := rg.NewPolyLvl(lvl)
	if r.P(0.6) {
		garbage(r, p)
	}
	return p
}

// apply switches one or more polynomials with one or more keys and extracts the exact noise.
func (w *auth) apply(t *sched.Task, s *run.Step, r *core.RNG, ks *authKS, step func(func()) bool) {
	y, st := w.y, w.y.St
	p := w.doms[0]
	rq, rp := p.RingQ(), p.RingP()
	key := w.keys[s.Mod(1, len(w.keys))]
	lvl := r.N(key.lq + 1)
	lcx := lvl + r.N(p.MaxLevel()-lvl+1)
	cx := randPoly(r, rq, lcx)
	if r.P(0.15) {
		// a sparse or tiny polynomial
		for i := range cx.Coeffs {
			for j := range cx.Coeffs[i] {
				cx.Coeffs[i][j] = uint64(j & 1)
			}
		}
	}
	ref := lab.Coeffs(rq, cx.Coeffs[:lvl+1], false, false)
	if r.P(0.5) {
		cx.Coeffs = lab.Evals(rq, cx.Coeffs, false, false)
		cx.IsNTT = true
	}
	dcx := digPoly(1, cx, true)
	inRows := func(k *authKey) lab.Rows {
		if k.in == nil {
			return intPow(rq, k.inSec.ints, 2)
		}
		return lab.EvalInts(rq, k.in, k.lq+1)
	}
	digK := func(k *authKey) (h uint64) {
		for _, v := range k.swk.Value {
			h = digQP(digQP(h, v[0], true), v[1], true)
		}
		return
	}
	// check compares p0 + p1*out with cx*in.
	check := func(what string, key *authKey, p0, p1 lab.Rows) {
		acc := p0.Clone()
		lab.MulAdd(rq, acc, p1, lab.EvalInts(rq, key.out, lvl+1))
		want := lab.Mul(rq, lab.Evals(rq, ref, false, false), inRows(key)[:lvl+1])
		diff := lab.Coeffs(rq, lab.SubRows(acc, want, rq.Modulus), true, false)
		noise := lab.MaxBig(lab.CRT(diff, rq.Modulus))
		num, round := w.noiseBound(lvl, key.lp, key.out)
		b := new(big.Int).Div(num, lab.Prod(p.P()[:key.lp+1]))
		b.Add(b, big.NewInt(round+1))
		if b.BitLen() >= lab.Prod(rq.Modulus[:lvl+1]).BitLen()-1 {
			st.Probe("bound beyond modulus")
			return
		}
		y.Check(noise.Cmp(b) <= 0, "noise", "%s: noise of %d bits, bound %d bits", what, noise.BitLen(), b.BitLen())
	}
	checkQP := func(what string, key *authKey, q0, p0, q1, p1 *ring.Poly) {
		P := lab.Prod(p.P()[:key.lp+1])
		a := lab.Evals(rq, q0.Coeffs[:lvl+1], true, false)
		lab.MulAdd(rq, a, lab.Evals(rq, q1.Coeffs[:lvl+1], true, false), lab.EvalInts(rq, key.out, lvl+1))
		want := lab.ScaleRows(lab.Mul(rq, lab.Evals(rq, ref, false, false), inRows(key)[:lvl+1]), P, rq.Modulus)
		rows := lab.Coeffs(rq, lab.SubRows(a, want, rq.Modulus), true, false)
		b := lab.Evals(rp, p0.Coeffs[:key.lp+1], true, false)
		lab.MulAdd(rp, b, lab.Evals(rp, p1.Coeffs[:key.lp+1], true, false), lab.EvalInts(rp, key.out, key.lp+1))
		rows = append(rows, lab.Coeffs(rp, b, true, false)...)
		mods := append(append([]uint64(nil), rq.Modulus[:lvl+1]...), rp.Modulus[:key.lp+1]...)
		noise := lab.MaxBig(lab.CRT(rows, mods))
		num, _ := w.noiseBound(lvl, key.lp, key.out)
		if num.BitLen() >= lab.Prod(mods).BitLen()-1 {
			st.Probe("bound beyond modulus")
			return
		}
		y.Check(noise.Cmp(num) <= 0, "noise", "%s: unscaled noise of %d bits, bound %d bits", what, noise.BitLen(), num.BitLen())
	}
	if s.Op == "apply" {
		lr := lvl + r.N(p.MaxLevel()-lvl+1)
		p0, p1 := dirtyPoly(r, rq, lr), dirtyPoly(r, rq, lr)
		dk := digK(key)
		if r.P(0.7) {
			if !step(func() { ks.ks.SwitchKeysInPlace(lvl, cx, key.swk, p0, p1) }) {
				return
			}
			what := fmt.Sprintf("step %d: direct switch (%s key at levels %d/%d, %s engine used %d times) at level %d NTT=%v", s.ID, key.how, key.lq, key.lp, ks.how, ks.used, lvl, cx.IsNTT)
			check(what, key, lab.Evals(rq, p0.Coeffs[:lvl+1], cx.IsNTT, false), lab.Evals(rq, p1.Coeffs[:lvl+1], cx.IsNTT, false))
			y.Check(digPoly(1, cx, true) == dcx && digK(key) == dk, "input", "%s changed its input", what)
			st.StateS("direct %s %d %d %d %v", key.how, key.lq, key.lp, lvl, cx.IsNTT)
		} else {
			q0, q1 := dirtyPoly(r, rp, p.PCount()-1), dirtyPoly(r, rp, p.PCount()-1)
			final := r.P(0.5)
			what := fmt.Sprintf("step %d: switch without final scaling (%s key at levels %d/%d, %s engine used %d times) at level %d NTT=%v", s.ID, key.how, key.lq, key.lp, ks.how, ks.used, lvl, cx.IsNTT)
			if !step(func() { ks.ks.SwitchKeysInPlaceNoModDown(lvl, cx, key.swk, p0, q0, p1, q1) }) {
				return
			}
			y.Check(digPoly(1, cx, true) == dcx && digK(key) == dk, "input", "%s changed its input", what)
			checkQP(what, key, p0, q0, p1, q1)
			if final && y.Viol == nil {
				if !step(func() {
					ks.ks.BasisExtender.ModDownQPtoQNTT(lvl, key.lp, p0, q0, p0)
					ks.ks.BasisExtender.ModDownQPtoQNTT(lvl, key.lp, p1, q1, p1)
				}) {
					return
				}
				check(what+" then scaled", key, lab.Evals(rq, p0.Coeffs[:lvl+1], true, false), lab.Evals(rq, p1.Coeffs[:lvl+1], true, false))
			}
			st.StateS("nomoddown %s %d %d %d %v", key.how, key.lq, key.lp, lvl, cx.IsNTT)
		}
		ks.used++
		return
	}
	// one decomposition serves several keys
	alpha := key.lp + 1
	beta := (lvl + alpha) / alpha
	var dec []rlwe.PolyQP
	own := r.P(0.5) || beta > p.Beta()
	if own {
		for i := 0; i < beta+r.N(2); i++ {
			dec = append(dec, rlwe.PolyQP{Q: dirtyPoly(r, rq, p.MaxLevel()), P: dirtyPoly(r, rp, p.PCount()-1)})
		}
	} else {
		dec = ks.ks.PoolDecompQP
	}
	if !step(func() { ks.ks.DecomposeNTT(lvl, key.lp, alpha, cx, dec) }) {
		return
	}
	ks.used++
	y.Check(digPoly(1, cx, true) == dcx, "input", "step %d: decomposition changed its input", s.ID)
	if r.P(0.3) {
		w.checkDigits(fmt.Sprintf("step %d: decomposition at levels %d/%d, NTT=%v, %s engine used %d times", s.ID, lvl, key.lp, cx.IsNTT, ks.how, ks.used), cx, dec, lvl, key.lp)
	}
	digD := func() (h uint64) {
		for _, d := range dec {
			h = digQP(h, d, true)
		}
		return
	}
	n := 0
	for i := 0; i < len(w.keys) && n < 3 && y.Viol == nil; i++ {
		k := w.keys[(s.Mod(1, len(w.keys))+i)%len(w.keys)]
		if k.lp != key.lp || k.lq < lvl {
			continue
		}
		n++
		p0, p1 := dirtyPoly(r, rq, p.MaxLevel()), dirtyPoly(r, rq, p.MaxLevel())
		q0, q1 := dirtyPoly(r, rp, p.PCount()-1), dirtyPoly(r, rp, p.PCount()-1)
		if r.P(0.3) {
			q0, q1 = ks.ks.Pool[1].P, ks.ks.Pool[2].P
		}
		d0 := digD()
		dk := digK(k)
		scaled := r.P(0.6)
		// the engine may serve something else in between, as long as its decomposition pool stays
		if own && r.P(0.3) {
			z := w.keys[r.N(len(w.keys))]
			if !step(func() {
				ks.ks.SwitchKeysInPlace(r.N(z.lq+1), randPoly(r, rq, p.MaxLevel()), z.swk, rq.NewPoly(), rq.NewPoly())
			}) {
				return
			}
		}
		what := fmt.Sprintf("step %d: hoisted switch %d (%s key at levels %d/%d, own pool %v, %s engine used %d times) at level %d NTT=%v", s.ID, n, k.how, k.lq, k.lp, own, ks.how, ks.used, lvl, cx.IsNTT)
		if scaled {
			if !step(func() { ks.ks.KeyswitchHoisted(lvl, dec, k.swk, p0, p1, q0, q1) }) {
				return
			}
			check(what, k, lab.Evals(rq, p0.Coeffs[:lvl+1], true, false), lab.Evals(rq, p1.Coeffs[:lvl+1], true, false))
		} else {
			if !step(func() { ks.ks.KeyswitchHoistedNoModDown(lvl, dec, k.swk, p0, p1, q0, q1) }) {
				return
			}
			checkQP(what, k, p0, q0, p1, q1)
		}
		y.Check(digD() == d0 && digK(k) == dk, "input", "%s changed its input", what)
		ks.used++
		st.StateS("hoist %s %d %d %d %v %v", k.how, k.lq, k.lp, lvl, cx.IsNTT, scaled)
	}
}

// checkDigits verifies that each digit is one integer over all moduli, congruent to the input where it comes from and no larger than the product of those moduli.
func (w *auth) checkDigits(what string, cx *ring.Poly, dec []rlwe.PolyQP, lvl, lp int) {
	p := w.doms[0]
	rq, rp := p.RingQ(), p.RingP()
	x := lab.Coeffs(rq, cx.Coeffs[:lvl+1], cx.IsNTT, false)
	mods := append(append([]uint64(nil), rq.Modulus[:lvl+1]...), rp.Modulus[:lp+1]...)
	for i := 0; i*(lp+1) <= lvl; i++ {
		from, to := i*(lp+1), min((i+1)*(lp+1), lvl+1)
		rows := append(lab.Coeffs(rq, dec[i].Q.Coeffs[:lvl+1], true, false), lab.Coeffs(rp, dec[i].P.Coeffs[:lp+1], true, false)...)
		for j := from; j < to; j++ {
			for k := range x[j] {
				if !w.y.Check(rows[j][k] == x[j][k], "digit", "%s: digit %d is not the input modulo %d", what, i, mods[j]) {
					return
				}
			}
		}
		lim := lab.Prod(mods[from:to])
		lim.Add(lim, new(big.Int).Rsh(lim, 40))
		lim.Add(lim, big.NewInt(1))
		if m := lab.MaxBig(lab.CRT(rows, mods)); !w.y.Check(m.Cmp(lim) <= 0, "digit", "%s: digit %d has %d bits, the moduli it comes from %d", what, i, m.BitLen(), lim.BitLen()) {
			return
		}
	}
}

// degree moves ciphertexts between rings of different degree.
func (w *auth) degree(t *sched.Task, s *run.Step, r *core.RNG, ks *authKS, step func(func()) bool) {
	y, st := w.y, w.y.St
	p := w.doms[0]
	rq := p.RingQ()
	var key *authKey
	for i := range w.keys {
		k := w.keys[(i+s.Mod(1, len(w.keys)))%len(w.keys)]
		if k.inSec != nil && k.outSec != nil && len(k.inSec.ints) != len(k.outSec.ints) {
			key = k
			break
		}
	}
	if key == nil || ks == nil {
		return
	}
	up := len(key.inSec.ints) < len(key.outSec.ints)
	small := w.doms[key.inSec.dom]
	if !up {
		small = w.doms[key.outSec.dom]
	}
	rs := small.RingQ()
	lvl := r.N(min(key.lq, small.MaxLevel()) + 1)
	ntt := r.P(0.6)
	gap := p.N() / small.N()
	num, round := w.noiseBound(lvl, key.lp, key.out)
	b := new(big.Int).Div(num, lab.Prod(p.P()[:key.lp+1]))
	b.Add(b, big.NewInt(round+1))
	if b.BitLen() >= lab.Prod(rq.Modulus[:lvl+1]).BitLen()-1 {
		st.Probe("bound beyond modulus")
		return
	}
	rnd := func(rg *ring.Ring) *rlwe.Ciphertext {
		ct := &rlwe.Ciphertext{Value: []*ring.Poly{randPoly(r, rg, lvl), randPoly(r, rg, lvl)}}
		ct.Value[0].IsNTT, ct.Value[1].IsNTT = ntt, ntt
		return ct
	}
	swk := func(ct *rlwe.Ciphertext) {
		p0, p1 := rq.NewPoly(), rq.NewPoly()
		ks.ks.SwitchKeysInPlace(lvl, ct.Value[1], key.swk, p0, p1)
		rq.AddLvl(lvl, ct.Value[0], p0, ct.Value[0])
		ring.CopyValuesLvl(lvl, p1, ct.Value[1])
	}
	nw := func(q rlwe.Parameters) *rlwe.Ciphertext {
		ct := rlwe.NewCiphertext(q, 1, lvl)
		for _, v := range ct.Value {
			v.IsNTT = ntt
			if r.P(0.3) {
				garbage(r, v)
			}
		}
		return ct
	}
	what := fmt.Sprintf("step %d: moving between degrees %d and %d (up=%v) at level %d NTT=%v", s.ID, small.N(), p.N(), up, lvl, ntt)
	var diff lab.Rows
	if up {
		in := rnd(rs)
		out := nw(p)
		d0 := digCt(in)
		want := lab.Phase(rs, in.Value, lab.EvalInts(rs, key.inSec.ints, lvl+1))
		if !step(func() {
			if ntt {
				rlwe.SwitchCiphertextRingDegreeNTT(in, nil, nil, out)
			} else {
				rlwe.SwitchCiphertextRingDegree(in, out)
			}
		}) {
			return
		}
		y.Check(digCt(in) == d0, "input", "%s changed its input", what)
		big := make(lab.Rows, lvl+1)
		for i := range big {
			big[i] = make([]uint64, p.N())
			for j, c := range want[i] {
				big[i][j*gap] = c
			}
		}
		if !y.Check(rowsEqual(lab.Phase(rq, out.Value, lab.EvalInts(rq, key.in, lvl+1)), big), "degree", "%s yields another message before switching", what) {
			return
		}
		if !step(func() { swk(out) }) {
			return
		}
		diff = lab.SubRows(lab.Phase(rq, out.Value, lab.EvalInts(rq, key.out, lvl+1)), big, rq.Modulus)
		y.Check(lab.MaxBig(lab.CRT(diff, rq.Modulus)).Cmp(b) <= 0, "noise", "%s: noise above its bound", what)
	} else {
		in := rnd(rq)
		out := nw(small)
		want := lab.Phase(rq, in.Value, lab.EvalInts(rq, key.in, lvl+1))
		if !step(func() { swk(in) }) {
			return
		}
		d0 := digCt(in)
		if !step(func() {
			if ntt {
				rlwe.SwitchCiphertextRingDegreeNTT(in, rs, rq, out)
			} else {
				rlwe.SwitchCiphertextRingDegree(in, out)
			}
		}) {
			return
		}
		y.Check(digCt(in) == d0, "input", "%s changed its input", what)
		sm := make(lab.Rows, lvl+1)
		for i := range sm {
			sm[i] = make([]uint64, small.N())
			for j := range sm[i] {
				sm[i][j] = want[i][j*gap]
			}
		}
		diff = lab.SubRows(lab.Phase(rs, out.Value, lab.EvalInts(rs, key.outSec.ints, lvl+1)), sm, rs.Modulus)
		y.Check(lab.MaxBig(lab.CRT(diff, rs.Modulus)).Cmp(b) <= 0, "noise", "%s: noise above its bound", what)
	}
	ks.used++
	st.StateS("degree %v %d %d %v", up, lvl, key.lp, ntt)
}
