package worlds

import (
	"fmt"
	"math"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
	"vsim/lab"
	"vsim/run"
	"vsim/sched"
)

// Senders and receivers hold encryptors and decryptors obtained in every way the library offers and use them in any
// order, on new and used receivers, while the randomness source fails at planned points and some calls are refused.

func init() {
	run.Register(&run.Prop{
		ID: "C13", Quick: 40000, Thorough: 800000,
		Worlds: []*run.World{
			{Kind: "post", Weight: 3, Gen: genPost(1), Exec: execPost},
			{Kind: "parallel", Weight: 1, Gen: genPost(3), Exec: execPost},
		},
		Rule:   "one evaluation is one ciphertext whose phase was compared with its plaintext, one decryption compared with the exact phase, or one recorded attribute; distinct are (engine kind, domains, level relation, receiver state, special moduli) states and interleavings",
		Real:   []string{"rlwe, ckks and fckks encryptors and decryptors with their copies", "rlwe.KeyGenerator", "ring samplers, NTT, basis extension"},
		Stub:   []string{"crypto/rand (simulated device: per-call streams, errors, short reads)", "goroutine scheduling (cooperative, seeded)"},
		Assume: []string{"the reference reads the phase c0 + c1 s + ... with plain modular arithmetic; it shares the library's NTT"},
	})
}

func genPost(nt int) func(p *run.Plan, r *core.RNG, thorough bool) {
	return func(p *run.Plan, r *core.RNG, thorough bool) {
		s := lab.RandShape(r, 6, 4, 0, 3)
		if r.P(0.02) {
			s.Long(r)
		} else if r.P(0.015) {
			s.Wide(r, 12)
		}
		huge := nt == 1 && r.P(0.0005)
		if huge {
			s.Huge(r)
		}
		s.Put(p)
		p.Set("tasks", nt)
		ops := []string{"enc", "copy", "withkey", "encrypt", "crp", "refused", "dec", "deccopy", "decwithkey", "decrypt", "cenc", "fdec"}
		n := (14 + r.N(16)) * nt
		if huge {
			n = 7
		}
		for k := 0; k < n; k++ {
			op := ops[r.W(3, 3, 3, 14, 4, 2, 2, 2, 2, 12, 3, 3)]
			if k < nt {
				op = "enc"
			}
			p.Add(r.N(nt), op, int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.U64()>>2))
		}
		if nt == 1 && r.P(0.4) {
			for k := 0; k < 1+r.N(4); k++ {
				p.Ent = append(p.Ent, sched.EntFault{Step: r.N(n), At: r.N(2), Short: r.N(40) - 1, Sticky: r.P(0.3)})
			}
		}
		if nt > 1 {
			p.Sched, p.Mean = r.U64(), 0.5
		}
	}
}

type postKey struct {
	sk  *rlwe.SecretKey
	pk  *rlwe.PublicKey
	sec *lab.Secret
	l1  int64
}

type postEnc struct {
	e   rlwe.Encryptor
	key int
	pub bool
	t   int
	how string
}
type postDec struct {
	d   rlwe.Decryptor
	key int
	t   int
	how string
}
type postCt struct {
	ct   *rlwe.Ciphertext
	key  int
	msgs [][]uint64 // plaintext, coefficient form
	dig  uint64
}

type post struct {
	y      *Sys
	params rlwe.Parameters
	cp     ckks.Parameters
	keys   []*postKey
	encs   []postEnc
	decs   []postDec
	cts    []*postCt
	used   [][]*rlwe.Ciphertext // receivers for reuse, per task
	fd     *fckks.Decryptor
	fe     *fckks.Encryptor
	fp     fckks.Parameters
}

// encBound is the largest error a fresh encryption may carry.
func encBound(p rlwe.Parameters, l1 int64, pub bool) int64 {
	B := int64(6*p.Sigma()) + 1
	if !pub {
		return B
	}
	c := int64(1)
	if p.RingType() == ring.ConjugateInvariant {
		c = 2
	}
	e := c*int64(p.HammingWeight())*B + B + c*l1*B
	if p.PCount() == 0 {
		return e
	}
	return int64(float64(e)/float64(p.P()[0])) + 2 + c*l1
}

func (w *post) setup() bool {
	shape := lab.GetShape(w.y.P)
	return w.y.Setup(-1, func() {
		w.params = shape.RLWE()
		w.cp = shape.CKKS(shape.LogN-1, float64(uint64(1)<<20))
		kg := rlwe.NewKeyGenerator(w.params)
		for k := 0; k < 3; k++ {
			x := &postKey{}
			switch k {
			case 0:
				x.sk = kg.GenSecretKey()
			case 1:
				x.sk = kg.GenSecretKeyGaussian()
			default:
				x.sk = kg.GenSecretKeyWithHammingWeight(1 + w.params.N()/4)
			}
			x.pk = kg.GenPublicKey(x.sk)
			w.keys = append(w.keys, x)
			sched.Pause(func() {
				x.sec = lab.ReadSecret(w.params, x.sk)
				for _, c := range x.sec.Ints {
					if c < 0 {
						c = -c
					}
					x.l1 += c
				}
			})
		}
		if shape.CI == 0 && shape.NP > 0 {
			w.fp = fckks.Parameters{Parameters: w.cp}
			w.fd = fckks.NewDecryptor(w.fp, w.keys[0].sk)
			w.fe = fckks.NewEncryptor(w.fp, w.keys[0].pk)
		}
	})
}

// garbage fills a polynomial with whatever.
func garbage(r *core.RNG, p *ring.Poly) {
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = r.U64() >> uint(r.N(8))
		}
	}
}

func (w *post) do(t *sched.Task, s *run.Step) {
	y, st := w.y, w.y.St
	p := w.params
	rq := p.RingQ()
	r := core.NewRNG(core.H(uint64(s.Arg(3)), 3))
	max0 := p.MaxLevel()
	myEnc := func() *postEnc {
		var c []int
		for i := range w.encs {
			if w.encs[i].t == s.T {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return nil
		}
		return &w.encs[c[s.Mod(0, len(c))]]
	}
	myDec := func() *postDec {
		var c []int
		for i := range w.decs {
			if w.decs[i].t == s.T {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return nil
		}
		return &w.decs[c[s.Mod(0, len(c))]]
	}
	key := s.Mod(1, len(w.keys))
	pub := s.Mod(2, 2) == 1
	kk := func() interface{} {
		if pub {
			return w.keys[key].pk
		}
		return w.keys[key].sk
	}
	faults := func() (n int64) {
		for _, v := range y.M.EntFaults {
			n += v
		}
		return
	}
	f0 := faults()
	// step runs one library call; reports whether it went through
	step := func(f func()) bool {
		o := t.Step(s.ID, f)
		if o.Panic != "" {
			if faults() > f0 {
				st.Probe("no randomness: " + s.Op)
				return false
			}
			y.V("panic", "%s (step %d): %s (in %s)", s.Op, s.ID, o.Panic, o.Where)
			return false
		}
		return true
	}
	switch s.Op {
	case "enc":
		step(func() {
			e := rlwe.NewEncryptor(p, kk())
			w.encs = append(w.encs, postEnc{e, key, pub, s.T, "new"})
		})
	case "copy", "withkey":
		if len(w.encs) == 0 {
			return
		}
		src := w.encs[s.Mod(0, len(w.encs))]
		step(func() {
			if s.Op == "copy" {
				e := src.e.ShallowCopy()
				w.encs = append(w.encs, postEnc{e, src.key, src.pub, s.T, "copy"})
			} else {
				e := src.e.WithKey(kk())
				w.encs = append(w.encs, postEnc{e, key, pub, s.T, "rekeyed"})
			}
		})
	case "dec", "deccopy", "decwithkey":
		var src *postDec
		if s.Op != "dec" {
			if len(w.decs) == 0 {
				return
			}
			src = &w.decs[s.Mod(0, len(w.decs))]
		}
		step(func() {
			switch s.Op {
			case "dec":
				w.decs = append(w.decs, postDec{rlwe.NewDecryptor(p, w.keys[key].sk), key, s.T, "new"})
			case "deccopy":
				w.decs = append(w.decs, postDec{src.d.ShallowCopy(), src.key, s.T, "copy"})
			default:
				w.decs = append(w.decs, postDec{src.d.WithKey(w.keys[key].sk), key, s.T, "rekeyed"})
			}
		})
	case "encrypt", "crp", "refused":
		e := myEnc()
		if e == nil {
			return
		}
		lp := r.N(max0 + 1)
		pt := rlwe.NewPlaintext(p, lp)
		msg := make([][]uint64, lp+1)
		small := r.P(0.2)
		for i := range msg {
			msg[i] = make([]uint64, p.N())
			for j := range msg[i] {
				if !small {
					msg[i][j] = r.U64() % rq.Modulus[i]
				}
			}
			copy(pt.Value.Coeffs[i], msg[i])
		}
		if r.P(0.5) {
			pt.Value.IsNTT = true
			copyRows(pt.Value.Coeffs, lab.Evals(rq, msg, false, false))
		}
		lc := r.N(max0 + 1)
		if r.P(0.4) {
			lc = lp
		}
		deg := 1
		state := "new"
		var ct *rlwe.Ciphertext
		if k := len(w.used[s.T]); k > 0 && r.P(0.4) {
			ct = w.used[s.T][r.N(k)]
			state = "used"
		} else {
			if r.P(0.2) {
				deg = 2
			}
			ct = rlwe.NewCiphertext(p, deg, lc)
		}
		ntt := r.P(0.5)
		for _, v := range ct.Value {
			v.IsNTT = ntt
			if r.P(0.3) {
				garbage(r, v)
				state = "dirty"
			}
		}
		lc = ct.Level()
		if s.Op == "refused" {
			// a receiver without a second part cannot take a ciphertext
			bad := &rlwe.Ciphertext{Value: ct.Value[:1]}
			d0 := digPoly(1, pt.Value, true)
			o := t.Step(s.ID, func() { e.e.Encrypt(pt, bad) })
			y.Check(o.Panic != "", "accepted", "step %d: encryption into a receiver of degree 0 goes through", s.ID)
			y.Check(digPoly(1, pt.Value, true) == d0, "input", "step %d: the refused encryption changed its plaintext", s.ID)
			st.Fault("call_refused")
			return
		}
		var crp *ring.Poly
		if s.Op == "crp" {
			if e.pub {
				return
			}
			crp = randPoly(r, rq, max0)
			crp.IsNTT = true
		}
		d0 := digPoly(1, pt.Value, true)
		ok := step(func() {
			if crp != nil {
				e.e.EncryptFromCRP(pt, crp, ct)
			} else {
				e.e.Encrypt(pt, ct)
			}
		})
		if !ok {
			return
		}
		what := fmt.Sprintf("step %d: encryption (%s engine, public=%v, crp=%v, plaintext level %d NTT=%v, %s receiver level %d NTT=%v, P=%d)", s.ID, e.how, e.pub, crp != nil, lp, pt.Value.IsNTT, state, lc, ntt, p.PCount())
		k := w.keys[e.key]
		y.Check(digPoly(1, pt.Value, true) == d0, "input", "%s changed its plaintext", what)
		if !y.Check(ct.Degree() == 1, "degree", "%s has degree %d", what, ct.Degree()) {
			return
		}
		lvl := min(lp, lc)
		if !y.Check(ct.Value[0].Level() == lvl && ct.Value[1].Level() == lvl, "level", "%s has level %d/%d", what, ct.Value[0].Level(), ct.Value[1].Level()) {
			return
		}
		y.Check(ct.Value[0].IsNTT == ntt && ct.Value[1].IsNTT == ntt, "domain", "%s comes in domain %v/%v", what, ct.Value[0].IsNTT, ct.Value[1].IsNTT)
		w.checkPhase(what, ct, k, msg[:lvl+1], encBound(p, k.l1, e.pub))
		if crp != nil {
			same := true
			c1 := lab.Evals(rq, ct.Value[1].Coeffs, ct.Value[1].IsNTT, false)
			for i := range c1 {
				for j := range c1[i] {
					same = same && c1[i][j] == crp.Coeffs[i][j]
				}
			}
			y.Check(same, "crp", "%s does not carry the reference polynomial", what)
		}
		if y.Viol != nil {
			return
		}
		w.keep(ct, e.key, msg[:lvl+1])
		if r.P(0.5) {
			w.used[s.T] = append(w.used[s.T], ct)
		}
		st.StateS("%s %v %v %v %v %s %d %d", e.how, e.pub, crp != nil, pt.Value.IsNTT, ntt, state, sgn(lp-lc), p.PCount())
	case "decrypt":
		d := myDec()
		if d == nil || len(w.cts) == 0 {
			return
		}
		c := w.cts[s.Mod(1, len(w.cts))]
		ct := c.ct
		if r.P(0.3) {
			// a ciphertext of any degree and key is fine
			ct = rlwe.NewCiphertext(p, r.N(10), r.N(max0+1))
			ntt := r.P(0.5)
			for i, v := range ct.Value {
				v.Coeffs = randPoly(r, rq, v.Level()).Coeffs
				v.IsNTT = ntt
				_ = i
			}
		}
		lp := r.N(max0 + 1)
		pt := rlwe.NewPlaintext(p, lp)
		pt.Value.IsNTT = r.P(0.5)
		garbage(r, pt.Value)
		ntt := pt.Value.IsNTT
		lc := ct.Level()
		lvl := min(lp, lc)
		d0 := digCt(ct)
		want := lab.Phase(rq, ct.Value, w.keys[d.key].sec.Q)
		if !step(func() { d.d.Decrypt(ct, pt) }) {
			return
		}
		what := fmt.Sprintf("step %d: decryption (%s engine, degree %d, level %d NTT=%v, receiver level %d NTT=%v)", s.ID, d.how, ct.Degree(), lc, ct.Value[0].IsNTT, lp, ntt)
		if !y.Check(pt.Level() == lvl, "level", "%s has level %d", what, pt.Level()) {
			return
		}
		y.Check(pt.Value.IsNTT == ntt, "domain", "%s comes in domain %v", what, pt.Value.IsNTT)
		y.Check(digCt(ct) == d0 && digCt(c.ct) == c.dig, "input", "%s changed the ciphertext", what)
		got := lab.Coeffs(rq, pt.Value.Coeffs, ntt, false)
		y.Check(rowsEqual(got, want[:lvl+1]), "decrypt", "%s is not the phase of the ciphertext", what)
		st.StateS("dec %s %d %v %v %d", d.how, min(ct.Degree(), 8), ct.Value[0].IsNTT, ntt, sgn(lp-lc))
	case "cenc":
		// the CKKS layer: new and given receivers, scale carried over
		scale := float64(r.U64()>>20) + 1
		lp, lc := r.N(max0+1), r.N(max0+1)
		pt := ckks.NewPlaintext(w.cp, lp, scale)
		msg := make([][]uint64, lp+1)
		for i := range msg {
			msg[i] = make([]uint64, p.N())
			for j := range msg[i] {
				msg[i][j] = r.U64() % rq.Modulus[i]
			}
		}
		copyRows(pt.Value.Coeffs, lab.Evals(rq, msg, false, false))
		mode := r.N(3)
		var ct *ckks.Ciphertext
		var back, back2 *ckks.Plaintext
		var crp *ring.Poly
		if r.P(0.3) && !pub {
			crp = randPoly(r, rq, max0)
			crp.IsNTT = true
		}
		if !step(func() {
			e := ckks.NewEncryptor(w.cp, kk())
			if mode == 1 {
				e = e.ShallowCopy()
			}
			if r.P(0.5) {
				lc = lp
				if crp != nil {
					ct = e.EncryptFromCRPNew(pt, crp)
				} else {
					ct = e.EncryptNew(pt)
				}
			} else {
				ct = ckks.NewCiphertext(w.cp, 1, lc, 3)
				if crp != nil {
					e.EncryptFromCRP(pt, crp, ct)
				} else {
					e.Encrypt(pt, ct)
				}
			}
			d := ckks.NewDecryptor(w.cp, w.keys[(key+1)%3].sk)
			if mode == 2 {
				d = d.ShallowCopy()
			}
			d = d.WithKey(w.keys[key].sk)
			back = d.DecryptNew(ct)
			back2 = ckks.NewPlaintext(w.cp, max0, 7)
			d.Decrypt(ct, back2)
		}) {
			return
		}
		lvl := min(lp, lc)
		what := fmt.Sprintf("step %d: CKKS encryption (public=%v, plaintext level %d, receiver level %d)", s.ID, pub, lp, lc)
		if !y.Check(ct.Level() == lvl && ct.Degree() == 1 && ct.Scale == scale, "attributes", "%s has level %d degree %d scale %g, not %d 1 %g", what, ct.Level(), ct.Degree(), ct.Scale, lvl, scale) {
			return
		}
		w.checkPhase(what, ct.Ciphertext, w.keys[key], msg[:lvl+1], encBound(p, w.keys[key].l1, pub))
		ph := lab.Phase(rq, ct.Value, w.keys[key].sec.Q)
		for _, b := range []*ckks.Plaintext{back, back2} {
			if !y.Check(b.Level() == lvl && b.Scale == scale, "attributes", "%s decrypts to level %d scale %g", what, b.Level(), b.Scale) {
				return
			}
			y.Check(rowsEqual(lab.Coeffs(rq, b.Value.Coeffs, b.Value.IsNTT, false), ph), "decrypt", "%s: decryption is not the phase", what)
		}
		w.keep(ct.Ciphertext, key, msg[:lvl+1])
	case "fdec":
		// the fast scheme's message interface
		if w.fd == nil || s.T != 0 {
			return
		}
		lc, isNew := r.N(max0+1), r.P(0.5)
		if isNew {
			lc = max0
		}
		scale := w.cp.DefaultScale()
		// messages as large as the level holds exercise every row of the decryption
		room := 1 / (scale * float64(p.N()) * 16)
		for i := 0; i <= lc; i++ {
			room *= float64(rq.Modulus[i])
		}
		mag := 1.0
		if room > 1 && r.P(0.6) {
			mag = math.Min(room, math.Ldexp(1, 30))
		}
		msg := fckks.NewMessage(w.fp)
		for i := range msg.Value {
			msg.Value[i] = complex(mag*float64(r.N(2001)-1000)/1000, mag*float64(r.N(2001)-1000)/1000)
		}
		want := append([]complex128(nil), msg.Value...)
		var out *fckks.Message
		var ct *ckks.Ciphertext
		if !step(func() {
			if isNew {
				ct = w.fe.EncryptMsgNew(msg)
			} else {
				ct = ckks.NewCiphertext(w.cp, 1, lc, 1)
				w.fe.EncryptMsg(msg, ct)
			}
			if r.P(0.5) {
				out = w.fd.DecryptToMsgNew(ct)
			} else {
				out = &fckks.Message{Value: make([]complex128, r.N(9))}
				w.fd.DecryptToMsg(ct, out)
			}
		}) {
			return
		}
		what := fmt.Sprintf("step %d: message encryption (receiver level %d)", s.ID, lc)
		if !y.Check(ct.Level() == lc && ct.Scale == scale, "attributes", "%s has level %d scale %g, not %d %g", what, ct.Level(), ct.Scale, lc, scale) {
			return
		}
		if !y.Check(len(out.Value) == len(want), "message", "%s: message of %d values comes back as %d", what, len(want), len(out.Value)) {
			return
		}
		// one unit of error per coefficient spreads to at most N over a slot
		b := float64(p.N()) * (float64(encBound(p, w.keys[0].l1, true)) + 1) / scale
		worst := 0.0
		for i := range want {
			d := out.Value[i] - want[i]
			worst = maxf(worst, maxf(absf(real(d)), absf(imag(d))))
		}
		y.Check(worst <= b+mag*1e-6, "message", "%s: message of size %g has error %g, bound %g", what, mag, worst, b)
		// what the receiver of the whole exchange sees must agree with the real phase: levels are not silently dropped
		ph := lab.Phase(rq, ct.Value, w.keys[0].sec.Q)
		y.Check(len(ph) == lc+1, "attributes", "%s lost rows", what)
		st.StateS("fdec %d %d", lc, max0)
	}
}

func maxf(a, b float64) float64 {
	if a > b {
		return a
	}
	return b
}
func absf(a float64) float64 {
	if a < 0 {
		return -a
	}
	return a
}
func sgn(a int) int {
	switch {
	case a < 0:
		return -1
	case a > 0:
		return 1
	}
	return 0
}

func copyRows(dst [][]uint64, src lab.Rows) {
	for i := range dst {
		copy(dst[i], src[i])
	}
}

func rowsEqual(a, b lab.Rows) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

func digCt(c *rlwe.Ciphertext) uint64 {
	h := uint64(len(c.Value))
	for _, v := range c.Value {
		h = digPoly(h, v, true)
	}
	return h
}

func (w *post) keep(ct *rlwe.Ciphertext, key int, msg [][]uint64) {
	// a frozen copy: the original may serve as a receiver again
	c := &rlwe.Ciphertext{}
	for _, v := range ct.Value {
		n := &ring.Poly{IsNTT: v.IsNTT, IsMForm: v.IsMForm}
		for _, row := range v.Coeffs {
			n.Coeffs = append(n.Coeffs, append([]uint64(nil), row...))
		}
		c.Value = append(c.Value, n)
	}
	w.cts = append(w.cts, &postCt{ct: c, key: key, msgs: msg, dig: digCt(c)})
}

// checkPhase compares a ciphertext's phase with a message.
func (w *post) checkPhase(what string, ct *rlwe.Ciphertext, k *postKey, msg lab.Rows, bound int64) {
	rq := w.params.RingQ()
	ph := lab.Phase(rq, ct.Value, k.sec.Q)
	d := lab.SubRows(ph, msg, rq.Modulus)
	e := lab.Small(d[0], rq.Modulus[0])
	w.y.St.Log(HU(1, ph[0]))
	if !w.y.Check(lab.MaxAbs(e) <= bound, "phase", "%s decrypts to its plaintext with error %d, more than %d", what, lab.MaxAbs(e), bound) {
		return
	}
	for i := 1; i < len(d); i++ {
		for j, x := range lab.Small(d[i], rq.Modulus[i]) {
			if x != e[j] {
				w.y.Check(false, "residues", "%s: residues modulo %d disagree", what, rq.Modulus[i])
				return
			}
		}
	}
}

func execPost(p *run.Plan, st *run.Stats) *run.Violation {
	y := &Sys{P: p, St: st}
	nt := max(p.Get("tasks"), 1)
	one := func(pre []sched.Preempt, record bool) {
		w := &post{y: y, used: make([][]*rlwe.Ciphertext, nt)}
		if w.setup() {
			y.Tasks(nt, pre, record, nil, w.do)
		}
	}
	if nt > 1 && p.Pre == nil && p.Sched != 0 {
		one(nil, true)
		if y.Viol != nil {
			return y.Viol
		}
		y.schedule(nt)
	}
	one(p.Pre, false)
	return y.Viol
}
