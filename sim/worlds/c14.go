package worlds

import (
	"fmt"
	"math"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
	"vsim/lab"
	"vsim/run"
	"vsim/sched"
)

// A ledger of ciphertexts with arbitrary content: workers apply every evaluator operation to them in any order, into new,
// used, over- and undersized receivers and in place, with refused calls and restarts from stored blobs in between. After
// every call the exact phase of the result, modulo every modulus it claims to have, is compared with what the operation
// documents and with the recorded scale, level and degree.

func init() {
	run.Register(&run.Prop{
		ID: "C14", Quick: 60000, Thorough: 400000,
		Worlds: []*run.World{
			{Kind: "ledger", Weight: 3, Gen: genLedger(0), Exec: execLedger},
			{Kind: "scales", Weight: 1, Gen: genLedger(1), Exec: execLedger},
			{Kind: "refusals", Weight: 1, Gen: genLedger(2), Exec: execLedger},
		},
		Rule:   "one evaluation is one comparison of a result's recorded level, degree or scale with the documented one, of its exact phase with the documented function of the inputs' phases, or of an object with itself before a refused call; distinct are (operation, receiver, levels, degrees, scale relation) states",
		Real:   []string{"ckks.Evaluator with and without keys", "rlwe.KeySwitcher, rlwe.KeyGenerator", "ring arithmetic, rescaling, automorphisms", "ciphertext and key marshalling (restarts)"},
		Stub:   []string{"crypto/rand (simulated device)", "crash and restart (volatile engines and receivers are lost, blobs survive)"},
		Assume: []string{"the reference reads phases with plain modular arithmetic and shares the library's NTT", "operands of sums have scales with an integer ratio, or one within 2^-20 of an integer"},
	})
}

var ledgerOps = []string{"fresh", "add", "sub", "addnomod", "subnomod", "neg", "addconst", "mulconst", "mulgauss", "mulconstadd", "mulgaussadd",
	"multi", "divi", "mulpow2", "conj", "rotate", "switchkeys", "mul", "mulrelin", "mulandadd", "mulrelinandadd", "relin", "scaleup", "setscale",
	"rescale", "droplevel", "reduce", "hoist", "engine", "restart", "refused"}

func genLedger(mode int) func(p *run.Plan, r *core.RNG, thorough bool) {
	return func(p *run.Plan, r *core.RNG, thorough bool) {
		mq := 5
		if thorough {
			mq = 10
		}
		s := lab.RandShape(r, 5, mq, 0, 2)
		if r.P(0.02) {
			s.Long(r)
		} else if r.P(0.015) {
			s.Wide(r, 12)
		}
		if s.NP == 0 && r.P(0.7) {
			s.NP = 1
		}
		if s.NQ == 1 && r.P(0.7) {
			s.NQ = 2 + r.N(3)
		}
		if r.P(0.03) && mode == 0 {
			s.NQ = 33 + r.N(4)
			s.LogN = 4
		}
		if r.P(0.15) {
			// wide moduli
			s.QB, s.Q0, s.PB = 59+r.N(2), 60, 61
			s.Mix = 0
		}
		huge := r.P(0.0003)
		if huge {
			s.Huge(r)
		}
		s.Put(p)
		p.Set("dscale", r.N(40))
		p.Set("rlkdeg", r.W(3, 1, 1)) // powers of the secret beyond the square
		w := []int{8, 10, 10, 3, 3, 4, 8, 8, 5, 6, 4, 2, 2, 3, 3, 7, 3, 7, 8, 6, 4, 4, 4, 4, 10, 4, 2, 3, 2, 2, 4}
		switch mode {
		case 1: // mostly scale management
			for i, o := range ledgerOps {
				switch o {
				case "rescale", "setscale", "scaleup", "mulconst", "add", "sub", "mulconstadd", "mulandadd", "droplevel":
					w[i] *= 4
				}
			}
		case 2:
			w[len(w)-1] = 60
		}
		n := 14 + r.N(22)
		if huge {
			n = 7
		}
		for k := 0; k < n; k++ {
			op := ledgerOps[r.W(w...)]
			if k < 3 {
				op = "fresh"
			}
			p.Add(0, op, int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.U64()>>2))
		}
	}
}

type ledItem struct {
	ct  *ckks.Ciphertext
	pt  *ckks.Plaintext
	sec int
}

func (i *ledItem) op() ckks.Operand {
	if i.ct != nil {
		return i.ct
	}
	return i.pt
}

func (i *ledItem) dig() uint64 {
	o := i.op()
	h := core.H(3, math.Float64bits(o.ScalingFactor()))
	for _, v := range o.El().Value {
		h = digPoly(h, v, true)
	}
	return h
}

type ledEng struct {
	ev   ckks.Evaluator
	keys bool
	rtks *rlwe.RotationKeySet
	used int
	how  string
}

type ledger struct {
	y     *Sys
	p     ckks.Parameters
	sk    [2]*rlwe.SecretKey
	s     [2]lab.Rows
	ints  [2][]int64
	rlk   *rlwe.RelinearizationKey
	rtks  *rlwe.RotationKeySet
	rots  []int
	swk   [2]*rlwe.SwitchingKey // 0 -> 1, 1 -> 0
	engs  []*ledEng
	items []*ledItem
	recv  []*ckks.Ciphertext // leftovers used as receivers
	cf    int64
}

func execLedger(p *run.Plan, st *run.Stats) *run.Violation {
	w := &ledger{y: &Sys{P: p, St: st}}
	if !w.setup() {
		return w.y.Viol
	}
	w.y.Serial(w.do)
	return w.y.Viol
}

func (w *ledger) setup() bool {
	pl := w.y.P
	shape := lab.GetShape(pl)
	r := core.NewRNG(pl.Seed ^ 0x14)
	return w.y.Setup(-1, func() {
		w.p = shape.CKKS(shape.LogN-1, math.Ldexp(1, 20+pl.Get("dscale")))
		w.cf = 1
		if shape.CI == 1 {
			w.cf = 2
		}
		kg := ckks.NewKeyGenerator(w.p)
		w.sk[0], w.sk[1] = kg.GenSecretKey(), kg.GenSecretKey()
		if shape.NP > 0 {
			w.rlk = kg.GenRelinearizationKey(w.sk[0], 1+pl.Get("rlkdeg"))
			w.rots = []int{1, 1 + r.N(w.p.N()/2), -1 - r.N(w.p.N()/2)}
			w.rtks = kg.GenRotationKeysForRotations(w.rots, shape.CI == 0, w.sk[0])
			w.swk[0] = kg.GenSwitchingKey(w.sk[0], w.sk[1])
			w.swk[1] = kg.GenSwitchingKey(w.sk[1], w.sk[0])
		}
		w.engs = append(w.engs, &ledEng{ev: ckks.NewEvaluator(w.p, rlwe.EvaluationKey{Rlk: w.rlk, Rtks: w.rtks}), keys: true, rtks: w.rtks, how: "first"})
		sched.Pause(func() {
			for i := range w.sk {
				x := lab.ReadSecret(w.p.Parameters, w.sk[i])
				w.ints[i], w.s[i] = x.Ints, x.Q
			}
		})
	})
}

// phase in evaluation form, all levels of the operand.
func (w *ledger) phase(o ckks.Operand, sec int) lab.Rows {
	return phaseEval(w.p.RingQ(), o.El().Value, w.s[sec])
}

// phaseEval is c0 + c1 s + c2 s^2 + ... in evaluation form.
func phaseEval(rq *ring.Ring, val []*ring.Poly, s lab.Rows) lab.Rows {
	lvl := len(val[0].Coeffs)
	for _, v := range val {
		lvl = min(lvl, len(v.Coeffs))
	}
	acc := lab.Evals(rq, val[len(val)-1].Coeffs[:lvl], val[len(val)-1].IsNTT, false)
	for k := len(val) - 2; k >= 0; k-- {
		e := lab.Evals(rq, val[k].Coeffs[:lvl], val[k].IsNTT, false)
		lab.MulAdd(rq, e, acc, s[:lvl])
		acc = e
	}
	return acc
}

// scale draws a scale with few or many significant bits.
func (w *ledger) scale(r *core.RNG) float64 {
	m := 1.0
	switch r.N(4) {
	case 0:
		m = float64(1 + r.N(9))
	case 1:
		m = 1 + r.F()
	}
	return math.Ldexp(m, 10+r.N(70))
}

func (w *ledger) randCt(r *core.RNG, deg, lvl int, scale float64) *ckks.Ciphertext {
	ct := &ckks.Ciphertext{Ciphertext: &rlwe.Ciphertext{}, Scale: scale}
	for i := 0; i <= deg; i++ {
		v := randPoly(r, w.p.RingQ(), lvl)
		if r.P(0.05) {
			for i := range v.Coeffs {
				x := []uint64{0, 1, w.p.RingQ().Modulus[i] - 1}[r.N(3)]
				for j := range v.Coeffs[i] {
					v.Coeffs[i][j] = x
				}
			}
		}
		v.IsNTT = true
		ct.Value = append(ct.Value, v)
	}
	return ct
}

func (w *ledger) randPt(r *core.RNG, lvl int, scale float64) *ckks.Plaintext {
	v := randPoly(r, w.p.RingQ(), lvl)
	v.IsNTT = true
	return &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: v}, Scale: scale}
}

// smallCt has a phase of small coefficients.
func (w *ledger) smallCt(r *core.RNG, lvl int, m []int64, scale float64, sec int) *ckks.Ciphertext {
	rq := w.p.RingQ()
	ct := w.randCt(r, 1, lvl, scale)
	e := lab.EvalInts(rq, m, lvl+1)
	cs := lab.Mul(rq, lab.Evals(rq, ct.Value[1].Coeffs, true, false), w.s[sec])
	copyRows(ct.Value[0].Coeffs, lab.SubRows(e, cs, rq.Modulus))
	return ct
}

// receiver returns where the result goes; nil asks for the variant that creates it.
func (w *ledger) receiver(r *core.RNG, deg, lvl int, op string, in ...ckks.Operand) (*ckks.Ciphertext, string) {
	if r.P(0.3) && !needsOut(op) {
		return nil, "new"
	}
	maxQ := w.p.MaxLevel()
	d := deg
	switch op {
	case "add", "sub", "addnomod", "subnomod":
		if r.P(0.2) {
			d++ // sums fit the receiver's degree
		}
	}
	k := r.N(6)
	switch k {
	case 0:
		for _, i := range []int{r.N(2), 0, 1} {
			if i < len(in) {
				if c, ok := in[i].(*ckks.Ciphertext); ok && c.Degree() >= deg {
					return c, fmt.Sprint("in place ", i)
				}
			}
		}
		return ckks.NewCiphertext(w.p, d, lvl, 1), "empty"
	case 1:
		return ckks.NewCiphertext(w.p, d, lvl, 1), "empty"
	case 2:
		return w.randCt(r, d, lvl, w.scale(r)), "dirty"
	case 3:
		return w.randCt(r, d, lvl+r.N(maxQ-lvl+1), w.scale(r)), "higher"
	case 4:
		return w.randCt(r, d, r.N(lvl+1), w.scale(r)), "lower"
	default:
		// a leftover of an earlier, perhaps refused, call
		for i, c := range w.recv {
			if c.Degree() == d {
				w.recv = append(w.recv[:i], w.recv[i+1:]...)
				return c, "leftover"
			}
		}
		return w.randCt(r, d, lvl, w.scale(r)), "dirty"
	}
}

// constant draws a constant for a product or a sum; exact tells that it is an integer.
func (w *ledger) constant(r *core.RNG, lvl int) (c interface{}, re, im float64, exact bool) {
	f := func(rational bool) float64 {
		v := float64(r.N(1 << uint(1+r.N(20))))
		switch r.N(8) {
		case 0:
			v = 0
		case 1:
			v = 1
		case 2:
			v = math.Ldexp(float64(1+r.N(1<<20)), r.N(42)) // up to 2^62
		}
		if rational {
			switch r.N(3) {
			case 0:
				v += r.F()
			case 1:
				v = r.F()
			default:
				v = math.Ldexp(r.F(), -r.N(20))
			}
		}
		if r.P(0.5) {
			v = -v
		}
		return v
	}
	switch r.N(6) {
	case 0:
		re = math.Abs(f(false))
		return uint64(re), re, 0, true
	case 1:
		re = f(false)
		return int64(re), re, 0, true
	case 2:
		re = f(false)
		return int(re), re, 0, true
	case 3:
		rat := r.P(0.6)
		re = f(rat)
		return re, re, 0, re == math.Trunc(re)
	default:
		re, im = f(r.P(0.5)), f(r.P(0.5))
		if r.P(0.2) {
			re = 0
		}
		if r.P(0.2) {
			im = 0
		}
		c = complex(re, im)
		exact = re == math.Trunc(re) && im == math.Trunc(im)
		return
	}
}

// monomials writes a + b X^(N/2) in evaluation form (a only, in the conjugate-invariant ring).
func (w *ledger) monomials(a, b *big.Int, rows int) lab.Rows {
	rq := w.p.RingQ()
	res := make(lab.Rows, rows)
	for i := range res {
		q := new(big.Int).SetUint64(rq.Modulus[i])
		res[i] = make([]uint64, rq.N)
		res[i][0] = new(big.Int).Mod(a, q).Uint64()
		if w.cf == 1 {
			res[i][rq.N/2] = new(big.Int).Mod(b, q).Uint64()
		}
	}
	return lab.Evals(rq, res, false, false)
}

func roundBig(x, s float64) *big.Int {
	f := new(big.Float).SetPrec(400).Mul(big.NewFloat(x), big.NewFloat(s))
	if x < 0 != (s < 0) {
		f.Sub(f, big.NewFloat(0.5))
	} else {
		f.Add(f, big.NewFloat(0.5))
	}
	i, _ := f.Int(nil)
	return i
}

// tolerance of a product computed with doubles.
func tolBig(x, s float64) *big.Int {
	f := new(big.Float).SetPrec(400).Mul(big.NewFloat(math.Abs(x)), big.NewFloat(math.Abs(s)))
	f.Mul(f, big.NewFloat(math.Ldexp(1, -50)))
	i, _ := f.Int(nil)
	return i.Add(i, big.NewInt(1))
}

// factor checks that k (evaluation form) is a + b X^(N/2) with a and b near re*s and im*s.
func (w *ledger) factor(k lab.Rows, re, im, s float64) (bool, string) {
	rq := w.p.RingQ()
	c := lab.Coeffs(rq, k, true, false)
	for i := range c {
		for j, v := range c[i] {
			if v != 0 && j != 0 && (j != rq.N/2 || w.cf == 2) {
				return false, "is no constant"
			}
		}
	}
	diff := func(j int, x float64) (bool, string) {
		want := roundBig(x, s)
		rows := make(lab.Rows, len(c))
		for i := range c {
			q := new(big.Int).SetUint64(rq.Modulus[i])
			rows[i] = []uint64{lab.SubMod(c[i][j], new(big.Int).Mod(want, q).Uint64(), rq.Modulus[i])}
		}
		d := lab.CRT(rows, rq.Modulus)[0]
		if d.CmpAbs(tolBig(x, s)) > 0 {
			return false, fmt.Sprintf("differs from %g by %v", x*s, d)
		}
		return true, ""
	}
	if ok, why := diff(0, re); !ok {
		return false, why
	}
	if w.cf == 1 {
		return diff(rq.N/2, im)
	}
	return true, ""
}

// quotient divides evaluation forms pointwise; ok is false if a divisor is zero somewhere.
func (w *ledger) quotient(a, b lab.Rows) (lab.Rows, bool) {
	rq := w.p.RingQ()
	res := make(lab.Rows, min(len(a), len(b)))
	for i := range res {
		q := rq.Modulus[i]
		res[i] = make([]uint64, rq.N)
		// batch inversion
		pre := make([]uint64, rq.N+1)
		pre[0] = 1
		for j, v := range b[i] {
			if v == 0 {
				return nil, false
			}
			pre[j+1] = lab.MulMod(pre[j], v, q)
		}
		inv := lab.InvMod(pre[rq.N], q)
		for j := rq.N - 1; j >= 0; j-- {
			res[i][j] = lab.MulMod(a[i][j], lab.MulMod(inv, pre[j], q), q)
			inv = lab.MulMod(inv, b[i][j], q)
		}
	}
	return res, true
}

// kswBound bounds the error of one key switch at a level.
func kswBound(p rlwe.Parameters, lvl int, out []int64) *big.Int {
	alpha := p.PCount()
	cf := int64(1)
	if p.RingType() == ring.ConjugateInvariant {
		cf = 2
	}
	D := new(big.Int)
	for i := 0; i <= lvl; i += alpha {
		D.Add(D, lab.Prod(p.Q()[i:min(i+alpha, p.MaxLevel()+1)]))
	}
	D.Mul(D, big.NewInt(2*cf*(int64(6*p.Sigma())+1)*int64(p.N())))
	D.Div(D, lab.Prod(p.P()))
	return D.Add(D, big.NewInt(2*(1+cf*lab.L1(out))+1))
}

// near checks got against want (evaluation forms) up to a bound on the coefficients; a nil bound means equality.
func (w *ledger) near(what string, got, want lab.Rows, b *big.Int) bool {
	y := w.y
	rq := w.p.RingQ()
	if len(got) > len(want) {
		return y.Check(false, "level", "%s: %d levels in the result, %d in the inputs", what, len(got), len(want))
	}
	if b == nil {
		return y.Check(rowsEqual(got, want[:len(got)]), "content", "%s: the content is not the documented one", what)
	}
	mods := rq.Modulus[:len(got)]
	if b.BitLen() >= lab.Prod(mods).BitLen()-1 {
		y.St.Probe("bound beyond modulus")
		return true
	}
	d := lab.MaxBig(lab.CRT(lab.Coeffs(rq, lab.SubRows(got, want, rq.Modulus), true, false), mods))
	return y.Check(d.Cmp(b) <= 0, "content", "%s: off the documented content by %d bits, bound %d bits", what, d.BitLen(), b.BitLen())
}

// permute applies an automorphism to an evaluation form.
func (w *ledger) permute(a lab.Rows, g uint64) lab.Rows {
	rq := w.p.RingQ()
	c := lab.Coeffs(rq, a, true, false)
	if w.cf == 1 {
		return lab.Evals(rq, autoRows(c, g, rq.Modulus), false, false)
	}
	return lab.Evals(rq, autoRowsCI(c, g, rq.Modulus), false, false)
}

// autoRowsCI is autoRows for polynomials in X + 1/X.
func autoRowsCI(c lab.Rows, g uint64, mods []uint64) lab.Rows {
	n := len(c[0])
	res := make(lab.Rows, len(c))
	for i := range c {
		q := mods[i]
		res[i] = make([]uint64, n)
		res[i][0] = c[i][0]
		for j := 1; j < n; j++ {
			v := c[i][j]
			k := int(uint64(j) * (g % uint64(4*n)) % uint64(4*n))
			if k > 2*n {
				k = 4*n - k
			}
			if k > n {
				res[i][2*n-k] = lab.SubMod(res[i][2*n-k], v, q)
			} else if k < n {
				res[i][k] = lab.AddMod(res[i][k], v, q)
			}
		}
	}
	return res
}

func mulPt(rq *ring.Ring, a, b lab.Rows) lab.Rows {
	return lab.Mul(rq, a, b)
}

func scaleBy(a lab.Rows, k float64, mods []uint64) lab.Rows {
	i, _ := big.NewFloat(k).Int(nil)
	return lab.ScaleRows(a, i, mods)
}

func relErr(a, b float64) float64 {
	if a == b {
		return 0
	}
	return math.Abs(a/b - 1)
}

func (w *ledger) keep(r *core.RNG, ct *ckks.Ciphertext, sec int) {
	for _, i := range w.items {
		if i.ct == ct {
			return
		}
	}
	if !(ct.Scale > math.Ldexp(1, -200) && ct.Scale < math.Ldexp(1, 300)) {
		ct.Scale = w.scale(r) // the content is arbitrary, so any label is true
	}
	it := &ledItem{ct: ct, sec: sec}
	if len(w.items) < 8 {
		w.items = append(w.items, it)
	} else {
		w.items[r.N(len(w.items))] = it
	}
}

func (w *ledger) do(t *sched.Task, s *run.Step) {
	y, st := w.y, w.y.St
	p := w.p
	rq := p.RingQ()
	r := core.NewRNG(core.H(uint64(s.Arg(3)), 14))
	maxQ := p.MaxLevel()
	step := func(f func()) bool {
		o := t.Step(s.ID, f)
		if o.Panic != "" {
			y.V("panic", "%s (step %d): %s (in %s)", s.Op, s.ID, o.Panic, o.Where)
			return false
		}
		return true
	}
	e := w.engs[s.Mod(0, len(w.engs))]
	// ct picks a ciphertext of degree at most d (at least 1) and, if sec >= 0, under that secret.
	ct := func(arg, d, sec int) *ledItem {
		for i, c := 0, s.Mod(arg, 1<<16); i < len(w.items); i++ {
			if x := w.items[(i+c)%len(w.items)]; x.ct != nil && x.ct.Degree() >= 1 && x.ct.Degree() <= d && (sec < 0 || x.sec == sec) {
				if !(x.ct.Scale > math.Ldexp(1, -200) && x.ct.Scale < math.Ldexp(1, 300)) {
					x.ct.Scale = w.scale(r) // the content is arbitrary, so any label is true
				}
				return x
			}
		}
		x := &ledItem{ct: w.randCt(r, 1, r.N(maxQ+1), w.scale(r)), sec: max(sec, 0)}
		w.items = append(w.items, x)
		return x
	}
	call := &evCall{op: s.Op}
	// what the result must be
	var (
		lvl, deg int
		scale    float64
		sec      int
		how      string
		content  func(what string, out *ckks.Ciphertext, got lab.Rows)
		exactLvl = true
		in       []*ledItem
		inWhat   string
	)
	needKeys := func() bool {
		if w.rlk == nil {
			return false
		}
		if !e.keys {
			for _, x := range w.engs {
				if x.keys {
					e = x
					return true
				}
			}
			return false
		}
		return true
	}
	switch s.Op {
	case "fresh":
		x := &ledItem{sec: r.N(2)}
		if r.P(0.25) {
			x.pt = w.randPt(r, r.N(maxQ+1), w.scale(r))
		} else {
			x.ct = w.randCt(r, 1+r.W(4, 1), maxQ-r.N(min(3, maxQ+1)), w.scale(r))
		}
		w.items = append(w.items, x)
		if len(w.items) > 8 {
			w.items = w.items[1:]
		}
		return
	case "engine":
		x := &ledEng{how: "new"}
		k := rlwe.EvaluationKey{}
		if r.P(0.7) {
			k.Rlk, k.Rtks = w.rlk, w.rtks
			x.keys = true
		}
		if !step(func() { x.ev = ckks.NewEvaluator(p, k) }) {
			return
		}
		if len(w.engs) < 4 {
			w.engs = append(w.engs, x)
		} else {
			w.engs[1+r.N(3)] = x
		}
		return
	case "restart":
		w.restart(t, s, r, step)
		return
	case "refused":
		w.refused(t, s, r, e, ct)
		return
	case "add", "sub", "addnomod", "subnomod":
		A := ct(0, 2, -1)
		sec = A.sec
		in = []*ledItem{A}
		a := ckks.Operand(A.ct)
		var b ckks.Operand
		switch k := r.N(8); {
		case k == 0:
			b = a // the same object twice
		case k < 3:
			b = w.randPt(r, r.N(maxQ+1), 1)
		default:
			B := ct(1, 2, sec)
			if B != A {
				in = append(in, B)
			}
			b = B.ct
		}
		if b != a {
			// the label of arbitrary content is arbitrary
			f := 1.0
			switch r.N(8) {
			case 0, 1:
				f = float64(2 + r.N(8))
			case 2:
				f = math.Ldexp(1, 1+r.N(20))
			case 3:
				f = float64(2 + r.N(1<<20))
			case 4:
				f = math.Ldexp(1, 50+r.N(30))
			case 5:
				f = 1 + math.Ldexp(1, -25)
			}
			if r.P(0.5) {
				b.SetScalingFactor(a.ScalingFactor() * f)
			} else {
				b.SetScalingFactor(a.ScalingFactor() / f)
			}
		}
		if r.P(0.5) {
			a, b = b, a
		}
		call.a, call.b = a, b
		sa, sb := a.ScalingFactor(), b.ScalingFactor()
		pa, pb := w.phase(a, sec), w.phase(b, sec)
		lvl, deg, scale = min(a.Level(), b.Level()), max(a.Degree(), b.Degree()), math.Max(sa, sb)
		call.out, how = w.receiver(r, deg, lvl, s.Op, a, b)
		ra, rb := math.Round(scale/sa), math.Round(scale/sb)
		inWhat = fmt.Sprintf("degrees %d and %d, levels %d and %d, scales %v and %v", a.Degree(), b.Degree(), a.Level(), b.Level(), sa, sb)
		neg := s.Op == "sub" || s.Op == "subnomod"
		content = func(what string, out *ckks.Ciphertext, got lab.Rows) {
			x, z := scaleBy(pa[:lvl+1], ra, rq.Modulus), scaleBy(pb[:lvl+1], rb, rq.Modulus)
			if neg {
				x = lab.SubRows(x, z, rq.Modulus)
			} else {
				x = lab.AddRows(x, z, rq.Modulus)
			}
			w.near(what, got, x, nil)
		}
	case "neg", "multi", "divi", "mulpow2", "scaleup", "reduce", "mulconst", "mulgauss", "addconst":
		if (s.Op == "multi" || s.Op == "divi") && w.cf == 2 {
			return
		}
		A := ct(0, 2, -1)
		sec, in = A.sec, []*ledItem{A}
		a := A.ct
		call.a = a
		sa := a.Scale
		pa := w.phase(a, sec)
		lvl, deg, scale = a.Level(), a.Degree(), sa
		call.out, how = w.receiver(r, deg, lvl, s.Op, a)
		inWhat = fmt.Sprintf("degree %d, level %d, scale %v", deg, lvl, sa)
		if call.out != nil {
			lvl = min(lvl, call.out.Level())
		}
		one, zero := big.NewInt(1), new(big.Int)
		exact := func(x, z *big.Int) {
			content = func(what string, out *ckks.Ciphertext, got lab.Rows) {
				w.near(what, got, mulPt(rq, pa, w.monomials(x, z, len(pa))), nil)
			}
		}
		switch s.Op {
		case "neg":
			exact(big.NewInt(-1), zero)
		case "reduce":
			exact(one, zero)
		case "multi":
			exact(zero, one)
		case "divi":
			exact(zero, big.NewInt(-1))
		case "mulpow2":
			call.k = r.N(61)
			exact(new(big.Int).Lsh(one, uint(call.k)), zero)
			inWhat += fmt.Sprint(" by 2^", call.k)
		case "scaleup":
			call.f = float64(1 + r.N(1<<uint(1+r.N(30))))
			switch r.N(10) {
			case 0, 1, 2:
				call.f = math.Ldexp(1, r.N(63))
			case 3, 4:
				call.f = math.Ldexp(1+r.F(), r.N(50)) // the integer part counts
			case 5:
				call.f = math.Ldexp(float64(1+r.N(1<<20)), 44+r.N(60))
			}
			x, _ := big.NewFloat(call.f).Int(nil)
			exact(x, zero)
			scale = sa * math.Trunc(call.f)
			inWhat += fmt.Sprint(" by ", call.f)
		case "mulgauss":
			g := func() (interface{}, *big.Int) {
				switch r.N(4) {
				case 0:
					v := r.U64() >> uint(r.N(60))
					return v, new(big.Int).SetUint64(v)
				case 1:
					v := int64(r.U64()) >> uint(r.N(60))
					return v, big.NewInt(v)
				case 2:
					v := int64(rq.Modulus[r.N(lvl+1)]) * int64(1-r.N(3)) // a multiple of a modulus
					return v, big.NewInt(v)
				}
				v := new(big.Int).SetUint64(r.U64())
				v.Mul(v, new(big.Int).SetUint64(r.U64()))
				if r.P(0.5) {
					v.Neg(v)
				}
				return new(big.Int).Set(v), v
			}
			var x, z *big.Int
			call.c, x = g()
			call.c2, z = g()
			exact(x, z)
			inWhat += fmt.Sprintf(" by %v + %v i", x, z)
		case "mulconst":
			c, re, im, ex := w.constant(r, lvl)
			call.c = c
			inWhat += fmt.Sprintf(" by %T %v", c, c)
			if w.cf == 2 {
				im = 0
			}
			scale = 0
			content = func(what string, out *ckks.Ciphertext, got lab.Rows) {
				S := out.Scale / sa
				if ex {
					if !y.Check(S == 1, "scale", "%s: an integer constant changed the scale by %v", what, S) {
						return
					}
				} else if !y.Check(S > 1<<25 && !math.IsInf(S, 0), "scale", "%s: a rational constant scaled by only %v", what, S) {
					return
				}
				if k, ok := w.quotient(got, pa); ok {
					good, why := w.factor(k, re, im, S)
					y.Check(good, "content", "%s: the factor %s (scale %v)", what, why, S)
				} else {
					st.Probe("zero divisor")
				}
			}
		case "addconst":
			c, re, im, _ := w.constant(r, lvl)
			call.c = c
			inWhat += fmt.Sprintf(" plus %T %v", c, c)
			if w.cf == 2 {
				im = 0
			}
			content = func(what string, out *ckks.Ciphertext, got lab.Rows) {
				good, why := w.factor(lab.SubRows(got, pa[:len(got)], rq.Modulus), re, im, sa)
				y.Check(good, "content", "%s: the summand %s", what, why)
			}
		}
	case "mulconstadd", "mulgaussadd":
		A := ct(0, 2, -1)
		sec, in = A.sec, []*ledItem{A}
		a := A.ct
		call.a = a
		sa := a.Scale
		pa := w.phase(a, sec)
		// the receiver holds something already
		out := w.randCt(r, max(a.Degree(), 1+r.N(2)), r.N(maxQ+1), sa)
		call.out, how = out, "accumulating"
		lvl, deg = min(a.Level(), out.Level()), out.Degree()
		exactLvl = s.Op == "mulconstadd"
		if s.Op == "mulgaussadd" {
			po := w.phase(out, sec)
			g := func() (interface{}, *big.Int) {
				v := int64(r.U64()) >> uint(r.N(60))
				return v, big.NewInt(v)
			}
			var x, z *big.Int
			call.c, x = g()
			call.c2, z = g()
			scale = sa
			inWhat = fmt.Sprintf("degree %d, level %d by %v + %v i into degree %d, level %d", a.Degree(), a.Level(), x, z, out.Degree(), out.Level())
			content = func(what string, out *ckks.Ciphertext, got lab.Rows) {
				w.near(what, got, lab.AddRows(po, mulPt(rq, pa, w.monomials(x, z, len(pa))), rq.Modulus), nil)
			}
			break
		}
		c, re, im, ex := w.constant(r, lvl)
		call.c = c
		if w.cf == 2 {
			im = 0
		}
		f := float64(uint64(1) << uint(r.N(30)))
		if r.P(0.3) {
			f = float64(1 + r.N(1000))
		}
		if ex || r.P(0.5) {
			if r.P(0.5) && (ex || float64(rq.Modulus[lvl])/f > 1<<22) {
				out.Scale *= f
			} else {
				out.Scale /= f
			}
		} else {
			out.Scale = sa * float64(rq.Modulus[lvl]) * math.Ldexp(1, r.N(30)-15)
		}
		// scales that differ by no whole factor: the old content is scaled by the nearest integer, the summand exactly
		whole := !r.P(0.25)
		if !whole {
			out.Scale *= 0.3 + 3*r.F()
		}
		so := out.Scale
		po := w.phase(out, sec)
		inWhat = fmt.Sprintf("degree %d, level %d, scale %v by %T %v into degree %d, level %d, scale %v", a.Degree(), a.Level(), sa, c, c, out.Degree(), out.Level(), so)
		content = func(what string, out *ckks.Ciphertext, got lab.Rows) {
			S := out.Scale / sa
			ratio := out.Scale / so
			if !y.Check(ratio > 0 && ratio < math.Ldexp(1, 500), "scale", "%s has scale %v", what, out.Scale) {
				return
			}
			n := len(got)
			if !y.Check(n <= len(pa), "level", "%s: %d levels in the result, %d in the input", what, n, len(pa)) {
				return
			}
			why := "is none"
			good := false
			// the old content is scaled by an integer
			base := math.Floor(ratio)
			for _, k := range []float64{base, base + 1} {
				if k < 1 || good || whole && relErr(k, ratio) > math.Ldexp(1, -20) || math.Abs(k-ratio) > 0.5000001*math.Max(1, ratio/(1<<40)) {
					continue
				}
				q, ok := w.quotient(lab.SubRows(got, scaleBy(po[:n], k, rq.Modulus), rq.Modulus), pa[:n])
				if !ok {
					st.Probe("zero divisor")
					return
				}
				good, why = w.factor(q, re, im, S)
			}
			y.Check(good, "content", "%s: result of scale %v, the factor %s", what, out.Scale, why)
		}
	case "conj", "rotate", "switchkeys", "relin":
		if !needKeys() || s.Op == "conj" && w.cf == 2 {
			return
		}
		k := 0
		var A *ledItem
		switch s.Op {
		case "switchkeys":
			A = ct(0, 1, -1)
			call.swk = w.swk[A.sec]
			sec = 1 - A.sec
		case "relin":
			A = ct(0, 2, 0)
			if A.ct.Degree() != 2 {
				A = &ledItem{ct: w.randCt(r, 2, r.N(maxQ+1), w.scale(r))}
			}
		default:
			A = ct(0, 1, 0)
			k = w.rots[r.N(len(w.rots))]
			if r.P(0.2) {
				k = 0
			}
			call.k = k
		}
		in = []*ledItem{A}
		a := A.ct
		call.a = a
		pa := w.phase(a, A.sec)
		lvl, deg, scale = a.Level(), 1, a.Scale
		call.out, how = w.receiver(r, 1, lvl, s.Op, a)
		if s.Op == "relin" && call.out == a {
			how = "in place"
		}
		inWhat = fmt.Sprintf("degree %d, level %d by %d", a.Degree(), a.Level(), k)
		g := uint64(1)
		if s.Op == "conj" {
			g = rq.NthRoot - 1
		} else if s.Op == "rotate" {
			g = galois5(k, rq.NthRoot)
		}
		content = func(what string, out *ckks.Ciphertext, got lab.Rows) {
			want := pa
			if g != 1 {
				want = w.permute(pa, g)
			}
			b := kswBound(p.Parameters, out.Level(), w.ints[sec])
			if s.Op == "rotate" && k == 0 {
				b = nil
			}
			w.near(what, got, want, b)
		}
	case "hoist":
		if !needKeys() {
			return
		}
		A := ct(0, 1, 0)
		in = []*ledItem{A}
		a := A.ct
		call.a = a
		pa := w.phase(a, 0)
		call.nmd = r.N(3)
		for n := 1 + r.N(3); n > 0; n-- {
			k := w.rots[r.N(len(w.rots))]
			if r.P(0.1) {
				k = 0
			}
			call.ks = append(call.ks, k)
			call.outs = append(call.outs, w.randCt(r, 1, a.Level(), 1))
		}
		if !call.has(e.ev) {
			return
		}
		d := A.dig()
		if !step(func() { call.run(e.ev) }) {
			return
		}
		y.Check(A.dig() == d, "input", "step %d: hoisted rotations changed their input", s.ID)
		for i, k := range call.ks {
			o := call.outs[i]
			b := kswBound(p.Parameters, a.Level(), w.ints[0])
			want := pa
			if k == 0 {
				b = nil
			} else {
				want = w.permute(pa, galois5(k, rq.NthRoot))
			}
			w.near(fmt.Sprintf("step %d: hoisted rotation %d by %d at level %d (engine used %d times)", s.ID, i, k, a.Level(), e.used), w.phase(o, 0), want, b)
			st.StateS("hoist %d %d", a.Level(), maxQ)
		}
		e.used++
		w.keep(r, call.outs[0], 0)
		return
	case "mul", "mulrelin", "mulandadd", "mulrelinandadd":
		relin := s.Op == "mulrelin" || s.Op == "mulrelinandadd"
		sk := -1
		if relin {
			if !needKeys() {
				return
			}
			sk = 0
		}
		A := ct(0, 1, sk)
		sec, in = A.sec, []*ledItem{A}
		a := ckks.Operand(A.ct)
		var b ckks.Operand
		switch k := r.N(8); {
		case k == 0:
			b = a
		case k < 3:
			b = w.randPt(r, r.N(maxQ+1), w.scale(r))
		default:
			B := ct(1, 1, sec)
			if B != A {
				in = append(in, B)
			}
			b = B.ct
		}
		if r.P(0.3) {
			a, b = b, a
		}
		call.a, call.b = a, b
		sa, sb := a.ScalingFactor(), b.ScalingFactor()
		pa, pb := w.phase(a, sec), w.phase(b, sec)
		prod := lab.Mul(rq, pa, pb)
		lvl, deg = min(a.Level(), b.Level()), a.Degree()+b.Degree()
		var bound func(l int) *big.Int
		if relin && deg == 2 {
			deg = 1
			bound = func(l int) *big.Int { return kswBound(p.Parameters, l, w.ints[0]) }
		} else {
			bound = func(int) *big.Int { return nil }
		}
		inWhat = fmt.Sprintf("degrees %d and %d, levels %d and %d", a.Degree(), b.Degree(), a.Level(), b.Level())
		if s.Op == "mul" || s.Op == "mulrelin" {
			scale = sa * sb
			call.out, how = w.receiver(r, deg, lvl, s.Op, a, b)
			if call.out != nil && deg == 1 && r.P(0.1) && how == "dirty" {
				// a receiver with room for more
				call.out = w.randCt(r, 2, lvl, 1)
				how = "larger"
			}
			content = func(what string, out *ckks.Ciphertext, got lab.Rows) { w.near(what, got, prod, bound(out.Level())) }
			break
		}
		out := w.randCt(r, deg, r.N(maxQ+1), sa*sb)
		f := 1.0
		switch r.N(5) {
		case 0:
			f = math.Ldexp(1, r.N(70))
		case 1:
			f = float64(1 + r.N(1<<20))
		case 2:
			f = 1 + float64(r.N(64))/32
		}
		out.Scale /= f
		so := out.Scale
		po := w.phase(out, sec)
		call.out, how = out, "accumulating"
		lvl = min(lvl, out.Level())
		scale = sa * sb
		if so > scale {
			scale = so // an ulp
		}
		inWhat += fmt.Sprintf(", scales %v and %v, into level %d, scale %v", sa, sb, out.Level(), so)
		content = func(what string, out *ckks.Ciphertext, got lab.Rows) {
			l := min(len(po), len(prod))
			w.near(what, got, lab.AddRows(scaleBy(po[:l], math.Round(scale/so), rq.Modulus), prod[:l], rq.Modulus), bound(out.Level()))
		}
	case "droplevel":
		A := ct(0, 2, -1)
		sec, in = A.sec, []*ledItem{A}
		a := A.ct
		pa := w.phase(a, sec)
		call.a = a
		call.k = r.N(a.Level() + 1)
		lvl, deg, scale = a.Level()-call.k, a.Degree(), a.Scale
		how = "new"
		if r.P(0.5) {
			call.out, how = a, "in place"
		}
		inWhat = fmt.Sprintf("level %d by %d", a.Level(), call.k)
		content = func(what string, out *ckks.Ciphertext, got lab.Rows) { w.near(what, got, pa, nil) }
	case "rescale":
		A := ct(0, 2, -1)
		sec, in = A.sec, []*ledItem{A}
		a := A.ct
		if a.Level() == 0 {
			if maxQ == 0 {
				return
			}
			A = &ledItem{ct: w.randCt(r, 1+r.N(2), 1+r.N(maxQ), 1), sec: r.N(2)}
			a, sec, in = A.ct, A.sec, []*ledItem{A}
		}
		// choose the scale so that any number of moduli goes
		ms := w.scale(r)
		sc := ms * (0.3 + 3*r.F())
		for n := r.N(min(a.Level(), 4) + 2); n > 0; n-- {
			sc *= float64(rq.Modulus[max(0, a.Level()-n+1)])
		}
		if r.P(0.1) {
			sc = ms / 2
			for n, i := r.N(a.Level()+1), 0; i < n; i++ {
				sc *= float64(rq.Modulus[a.Level()-i]) // at the border
			}
		}
		if r.P(0.1) {
			sc = math.Ldexp(1, 2000/max(1, r.N(20))) // far too large
		}
		if math.IsInf(sc, 0) {
			sc = math.Ldexp(1, 1000)
		}
		a.Scale = sc
		pa := w.phase(a, sec)
		call.a, call.f = a, ms
		scale = sc
		lvl, deg = a.Level(), a.Degree()
		mul := big.NewInt(1)
		for lvl > 0 && scale/float64(rq.Modulus[lvl]) >= ms/2 {
			scale /= float64(rq.Modulus[lvl])
			mul.Mul(mul, new(big.Int).SetUint64(rq.Modulus[lvl]))
			lvl--
		}
		n := a.Level() - lvl
		switch r.N(4) {
		case 0:
			how = "new"
		case 1:
			call.out, how = a, "in place"
		case 2:
			// any receiver that holds the result
			call.out, how = w.randCt(r, deg, lvl+r.N(maxQ-lvl+1), w.scale(r)), "dirty"
			how += fmt.Sprint(" of level ", call.out.Level())
		default:
			call.out, how = ckks.NewCiphertext(p, deg, a.Level(), 1), "empty"
		}
		inWhat = fmt.Sprintf("level %d, degree %d, scale %v to at least %v, %d moduli to drop", a.Level(), deg, sc, ms, n)
		content = func(what string, out *ckks.Ciphertext, got lab.Rows) {
			if n == 0 {
				w.near(what, got, pa, nil)
				return
			}
			v := lab.CRT(lab.Coeffs(rq, pa, true, false), rq.Modulus)
			half := new(big.Int).Rsh(mul, 1)
			for _, x := range v {
				x.Add(x, half)
				x.Div(x, mul)
			}
			want := make(lab.Rows, lvl+1)
			for i := range want {
				q := new(big.Int).SetUint64(rq.Modulus[i])
				want[i] = make([]uint64, rq.N)
				for j, x := range v {
					want[i][j] = new(big.Int).Mod(x, q).Uint64()
				}
			}
			b := int64(1)
			pw := int64(1)
			for d := 0; d <= deg; d++ {
				b += pw
				pw *= w.cf * lab.L1(w.ints[sec])
			}
			w.near(what, got, lab.Evals(rq, want, false, false), big.NewInt(b))
		}
	case "setscale":
		// content with a known small phase, so that the factor can be read off it
		if maxQ == 0 {
			return
		}
		l := 1 + r.N(maxQ)
		bits := lab.Prod(rq.Modulus[:l]).BitLen() - 8 // what fits one level lower
		mb := 8 + r.N(min(50, max(1, bits-20)))
		lr := r.N(max(1, min(bits-mb, 40)))
		ratio := math.Ldexp(1, lr)
		switch r.N(5) {
		case 0:
			ratio = math.Floor(ratio*r.F()) + 1
		case 1:
			ratio = ratio*r.F() + 0.01
		case 2:
			ratio = math.Ldexp(1, -r.N(20))
		case 3:
			ratio = r.F() * math.Ldexp(1, -r.N(20))
		}
		m := make([]int64, rq.N)
		for i := range m {
			m[i] = int64(r.U64()>>1) >> uint(63-mb)
			if r.P(0.5) {
				m[i] = -m[i]
			}
		}
		sec = r.N(2)
		s0 := w.scale(r)
		a := w.smallCt(r, l, m, s0, sec)
		call.out, how = a, "in place"
		call.f = s0 * ratio
		deg, scale, lvl = 1, call.f, l
		exactLvl = false
		inWhat = fmt.Sprintf("level %d, scale %v to %v, message of %d bits", l, s0, call.f, mb)
		content = func(what string, out *ckks.Ciphertext, got lab.Rows) {
			if !y.Check(out.Level() >= l-1, "level", "%s: more than one level gone, %d left", what, out.Level()) {
				return
			}
			f := call.f / s0
			worst := new(big.Int)
			want := make(lab.Rows, len(got))
			for i := range want {
				want[i] = make([]uint64, rq.N)
			}
			for j, v := range m {
				x := roundBig(float64(v), f)
				// the factor is rounded at the scale of the modulus, and all is computed with doubles
				tol := tolBig(float64(v), f)
				tol.Add(tol, tolBig(float64(v), math.Ldexp(1, 50-24)))
				if tol.Cmp(worst) > 0 {
					worst = tol
				}
				for i := range want {
					want[i][j] = new(big.Int).Mod(x, new(big.Int).SetUint64(rq.Modulus[i])).Uint64()
				}
			}
			worst.Add(worst, big.NewInt(2+w.cf*lab.L1(w.ints[sec])))
			w.near(what, got, lab.Evals(rq, want, false, false), worst)
		}
	default:
		run.Fail("step %s", s.Op)
	}
	if !call.has(e.ev) {
		return
	}
	what := fmt.Sprintf("step %d: %s of %s into %s receiver", s.ID, s.Op, inWhat, how)
	if call.out != nil {
		what += fmt.Sprintf(" (level %d, degree %d)", call.out.Level(), call.out.Degree())
	}
	what += fmt.Sprintf(" by %s engine used %d times", e.how, e.used)
	digs := make([]uint64, len(in))
	for i, x := range in {
		digs[i] = x.dig()
	}
	recvLvl := lvl
	if call.out != nil {
		recvLvl = min(lvl, call.out.Level())
	}
	var out *ckks.Ciphertext
	var err error
	if how == "larger" {
		// such a receiver may be refused
		o := t.Step(s.ID, func() { out, err = call.run(e.ev) })
		if o.Panic != "" && !runtimeErr(o.Panic) {
			return
		} else if o.Panic != "" {
			y.V("panic", "%s: %s (in %s)", what, o.Panic, o.Where)
			return
		}
	} else if !step(func() { out, err = call.run(e.ev) }) {
		return
	}
	e.used++
	if !y.Check(err == nil, "refused", "%s was refused: %v", what, err) {
		return
	}
	for i, x := range in {
		if x.ct != nil && x.ct == out {
			x.sec = sec
			continue
		}
		y.Check(x.dig() == digs[i], "input", "%s changed its input %d", what, i)
	}
	if !y.Check(out.Degree() == deg, "degree", "%s has degree %d, not %d", what, out.Degree(), deg) {
		return
	}
	for _, v := range out.Value {
		if !y.Check(v.Level() == out.Level() && v.IsNTT, "level", "%s: components of levels %d and %d, NTT %v", what, out.Level(), v.Level(), v.IsNTT) {
			return
		}
	}
	if !y.Check(out.Level() <= lvl, "level", "%s has level %d, but only %d is true", what, out.Level(), lvl) {
		return
	}
	if exactLvl {
		y.Check(out.Level() >= recvLvl, "level", "%s has level %d, not %d", what, out.Level(), recvLvl)
	}
	if scale != 0 {
		y.Check(relErr(out.Scale, scale) < math.Ldexp(1, -40), "scale", "%s has scale %v, not %v", what, out.Scale, scale)
	}
	if y.Viol != nil {
		return
	}
	content(what, out, w.phase(out, sec))
	st.StateS("%s %s %d %d %d", s.Op, how, lvl, deg, maxQ)
	w.keep(r, out, sec)
}

// restart loses engines and ciphertexts; what was stored comes back.
func (w *ledger) restart(t *sched.Task, s *run.Step, r *core.RNG, step func(func()) bool) {
	y, st := w.y, w.y.St
	var err error
	fail := func(e error) {
		if e != nil && err == nil {
			err = e
		}
	}
	items := append([]*ledItem(nil), w.items...)
	var digs []uint64
	for _, it := range items {
		digs = append(digs, it.dig())
	}
	var back []*ledItem
	var eng *ledEng
	if !step(func() {
		for _, it := range items {
			if it.ct == nil {
				continue
			}
			b, e := it.ct.MarshalBinary()
			fail(e)
			c := new(ckks.Ciphertext)
			if e == nil {
				fail(c.UnmarshalBinary(b))
			}
			back = append(back, &ledItem{ct: c, sec: it.sec})
		}
		k := rlwe.EvaluationKey{}
		if w.rlk != nil {
			b, e := w.rlk.MarshalBinary()
			fail(e)
			k.Rlk = new(rlwe.RelinearizationKey)
			fail(k.Rlk.UnmarshalBinary(b))
			b, e = w.rtks.MarshalBinary()
			fail(e)
			k.Rtks = new(rlwe.RotationKeySet)
			fail(k.Rtks.UnmarshalBinary(b))
		}
		if err == nil {
			eng = &ledEng{ev: ckks.NewEvaluator(w.p, k), keys: true, rtks: k.Rtks, how: "restarted"}
		}
	}) {
		return
	}
	if !y.Check(err == nil, "restart", "step %d: stored objects did not come back: %v", s.ID, err) {
		return
	}
	i := 0
	for j, it := range items {
		if it.ct == nil {
			continue
		}
		y.Check(back[i].dig() == digs[j], "restart", "step %d: a stored ciphertext came back different", s.ID)
		i++
	}
	w.items, w.engs, w.recv = back, []*ledEng{eng}, nil
	st.Fault("crash_restart")
}

func runtimeErr(s string) bool {
	for _, p := range []string{"runtime error", "invalid memory address", "interface conversion"} {
		if len(s) >= len(p) {
			for i := 0; i+len(p) <= len(s); i++ {
				if s[i:i+len(p)] == p {
					return true
				}
			}
		}
	}
	return false
}

// refused makes a call that cannot keep the rules: it must be refused, leave its inputs alone, leave what it works on in
// place truthful, and leave engine and receiver usable.
func (w *ledger) refused(t *sched.Task, s *run.Step, r *core.RNG, e *ledEng, ct func(arg, d, sec int) *ledItem) {
	y, st := w.y, w.y.St
	p := w.p
	maxQ := p.MaxLevel()
	rl := func() int { return r.N(maxQ + 1) }
	var in []*ledItem
	add := func(x *ledItem) *ledItem { in = append(in, x); return x }
	c := &evCall{}
	recvOf := func(deg, lvl int) *ckks.Ciphertext { return w.randCt(r, deg, lvl, w.scale(r)) }
	anyRt := false    // a crash counts as a refusal: nothing documents an orderly one
	var inPl *ledItem // worked on in place: stays truthful
	why := ""
	kinds := []string{"mul2", "rescale0", "rescaleScale", "rescaleMin", "rescaleDeg", "rescaleLow", "rescaleCoeff", "dropMore", "dropNeg", "norot", "norlk", "relin1", "switch2", "small", "twopt", "coeff", "setscale0", "noi", "reduceDeg", "negDeg", "relinNoKey", "gaussType"}
	kind := kinds[r.N(len(kinds))]
	switch kind {
	case "mul2":
		a := add(&ledItem{ct: w.randCt(r, 2, rl(), w.scale(r)), sec: 0})
		b := add(&ledItem{ct: w.randCt(r, r.N(2)+1, rl(), w.scale(r)), sec: 0})
		c.op = []string{"mul", "mulandadd"}[r.N(2)]
		if w.rlk != nil && e.keys && r.P(0.5) {
			c.op = []string{"mulrelin", "mulrelinandadd"}[r.N(2)]
		}
		c.a, c.b = a.ct, b.ct
		if r.P(0.5) {
			c.a, c.b = b.ct, a.ct
		}
		c.out = recvOf(2, rl())
		why = "product with a degree-two ciphertext"
	case "rescale0":
		a := add(&ledItem{ct: w.randCt(r, 1, 0, math.Ldexp(1, 80))})
		c.op, c.a, c.f = "rescale", a.ct, 1024
		c.out = recvOf(1, 0)
		if r.P(0.4) {
			c.out, inPl = a.ct, a
		}
		why = "rescaling at level 0"
	case "rescaleLow":
		if maxQ < 2 {
			return
		}
		// one modulus goes, the receiver has at least two fewer
		a := add(&ledItem{ct: w.randCt(r, 1+r.N(2), 2+r.N(maxQ-1), 0)})
		l := a.ct.Level()
		a.ct.Scale = 1024 * float64(p.RingQ().Modulus[l])
		c.op, c.a, c.f = "rescale", a.ct, 1024
		c.out = recvOf(a.ct.Degree(), r.N(l-1))
		why = "rescaling into a receiver below the level of the result"
	case "rescaleCoeff":
		if maxQ == 0 {
			return
		}
		a := add(&ledItem{ct: w.randCt(r, 1+r.N(2), 1+r.N(maxQ), math.Ldexp(1, 10+r.N(100)))})
		for _, v := range a.ct.Value {
			v.IsNTT = false
		}
		c.op, c.a, c.f = "rescale", a.ct, 1024
		c.out = recvOf(a.ct.Degree(), a.ct.Level())
		why = "rescaling outside the NTT domain"
	case "rescaleScale", "rescaleMin", "rescaleDeg":
		if maxQ == 0 {
			return
		}
		a := add(&ledItem{ct: w.randCt(r, 1, 1+r.N(maxQ), math.Ldexp(1, 100))})
		c.op, c.a, c.f = "rescale", a.ct, 1024
		c.out = recvOf(1, a.ct.Level())
		if r.P(0.4) {
			c.out, inPl = a.ct, a
		}
		switch kind {
		case "rescaleScale":
			a.ct.Scale = 0
			why = "rescaling at scale 0"
		case "rescaleMin":
			c.f = []float64{0, -1, -1e300}[r.N(3)]
			why = "rescaling to a minimum below zero"
		default:
			c.out, inPl = recvOf(2*r.N(2), a.ct.Level()), nil
			why = "rescaling into another degree"
		}
	case "dropMore", "dropNeg":
		a := add(&ledItem{ct: w.randCt(r, 1, maxQ, w.scale(r))})
		d := r.N(maxQ + 1)
		for _, v := range a.ct.Value {
			v.Coeffs = v.Coeffs[:maxQ+1-d]
		}
		c.op, c.a, c.out, inPl = "droplevel", a.ct, a.ct, a
		c.k = a.ct.Level() + 1 + r.N(3)
		why = "dropping more levels than there are"
		if kind == "dropNeg" {
			c.k = -1 - r.N(d+1)
			why = "dropping a negative number of levels"
		}
		if r.P(0.3) {
			c.out, inPl = nil, nil
		}
	case "norot":
		if w.rlk == nil {
			return
		}
		a := add(&ledItem{ct: w.randCt(r, 1, rl(), w.scale(r))})
		k := 1 + r.N(p.N()/2-1)
		for _, x := range w.rots {
			if galois5(k, p.RingQ().NthRoot) == galois5(x, p.RingQ().NthRoot) {
				return
			}
		}
		c.op, c.a, c.k, c.out = "rotate", a.ct, k, recvOf(1, rl())
		if r.P(0.3) {
			c.out, inPl = a.ct, a
		}
		anyRt = !e.keys
		why = "rotation without its key"
	case "norlk", "relinNoKey":
		if e.keys {
			for _, x := range w.engs {
				if !x.keys {
					e = x
				}
			}
			if e.keys {
				return
			}
		}
		a := add(&ledItem{ct: w.randCt(r, 1, rl(), w.scale(r))})
		b := add(&ledItem{ct: w.randCt(r, 1, rl(), w.scale(r))})
		c.op, c.a, c.b, c.out = "mulrelin", a.ct, b.ct, recvOf(1, rl())
		if kind == "relinNoKey" {
			a.ct = w.randCt(r, 2, rl(), w.scale(r))
			c.op, c.a, c.b, c.out = "relin", a.ct, nil, recvOf(1, rl())
		}
		anyRt = true
		why = "relinearisation without a key"
	case "relin1":
		if !e.keys || w.rlk == nil {
			return
		}
		a := add(&ledItem{ct: w.randCt(r, 1, rl(), w.scale(r))})
		c.op, c.a, c.out = "relin", a.ct, recvOf(1, rl())
		if r.P(0.3) {
			c.out, inPl = a.ct, a
		}
		why = "relinearisation of degree one"
	case "switch2":
		if w.rlk == nil {
			return
		}
		a := add(&ledItem{ct: w.randCt(r, 1, rl(), w.scale(r))})
		c.op, c.a, c.swk, c.out = "switchkeys", a.ct, w.swk[0], recvOf(2, rl())
		if r.P(0.5) {
			a.ct = w.randCt(r, 2, rl(), w.scale(r))
			c.a, c.out = a.ct, recvOf(1, rl())
		}
		why = "key switching of or into degree two"
	case "small":
		a := add(&ledItem{ct: w.randCt(r, 2, rl(), w.scale(r))})
		b := add(&ledItem{ct: w.randCt(r, 1, rl(), w.scale(r))})
		c.op, c.a, c.b, c.out = []string{"add", "sub", "addnomod"}[r.N(3)], a.ct, b.ct, recvOf(1, rl())
		if r.P(0.3) {
			c.out, inPl = b.ct, b
		}
		why = "sum into a receiver of too small a degree"
	case "twopt":
		a := add(&ledItem{pt: w.randPt(r, rl(), w.scale(r))})
		b := add(&ledItem{pt: w.randPt(r, rl(), w.scale(r))})
		c.op, c.a, c.b, c.out = []string{"add", "sub", "mul"}[r.N(3)], a.pt, b.pt, recvOf(1, rl())
		why = "operation between two plaintexts"
	case "coeff":
		a := add(&ledItem{ct: w.randCt(r, 1, rl(), w.scale(r))})
		b := add(&ledItem{ct: w.randCt(r, 1, rl(), w.scale(r))})
		for _, v := range []*ledItem{a, b}[r.N(2)].ct.Value {
			v.IsNTT = false
		}
		c.op, c.a, c.b, c.out = []string{"add", "sub", "mul", "mulandadd"}[r.N(4)], a.ct, b.ct, recvOf(2, rl())
		why = "operand in coefficient form"
	case "setscale0":
		a := add(&ledItem{ct: w.randCt(r, 1, 0, w.scale(r))})
		c.op, c.out, c.f, inPl = "setscale", a.ct, a.ct.Scale*(0.1+3*r.F()), a
		why = "setting the scale at level 0"
	case "noi":
		if w.cf == 1 {
			return
		}
		a := add(&ledItem{ct: w.randCt(r, 1, rl(), w.scale(r))})
		c.op, c.a = []string{"multi", "divi", "conj"}[r.N(3)], a.ct
		if r.P(0.5) {
			c.out = recvOf(1, rl())
		}
		why = "complex operation in the conjugate-invariant ring"
	case "reduceDeg", "negDeg":
		d := 1 + r.N(2)
		a := add(&ledItem{ct: w.randCt(r, d, rl(), w.scale(r))})
		c.op, c.a, c.out = "reduce", a.ct, recvOf(3-d, rl())
		if kind == "negDeg" {
			c.op = "neg"
		}
		why = "receiver of another degree"
	case "gaussType":
		a := add(&ledItem{ct: w.randCt(r, 1, rl(), w.scale(r))})
		c.op, c.a, c.c, c.c2, c.out = "mulgauss", a.ct, 1.5, int64(1), recvOf(1, rl())
		why = "Gaussian integer of a wrong type"
	}
	if !c.has(e.ev) {
		return
	}
	var digs []uint64
	for _, x := range in {
		digs = append(digs, x.dig())
	}
	var before lab.Rows
	var s0 float64
	if inPl != nil {
		before, s0 = w.phase(inPl.op(), 0), inPl.op().ScalingFactor()
	}
	var err error
	o := t.Step(s.ID, func() { _, err = c.run(e.ev) })
	what := fmt.Sprintf("step %d: %s (%s, engine used %d times)", s.ID, why, c.op, e.used)
	e.used++
	if !y.Check(o.Panic != "" || err != nil, "accepted", "%s was accepted", what) {
		return
	}
	if !anyRt {
		y.Check(o.Panic == "" || !runtimeErr(o.Panic), "crash", "%s crashed instead of being refused: %s", what, o.Panic)
	}
	for i, x := range in {
		if x == inPl {
			continue
		}
		y.Check(x.dig() == digs[i], "input", "%s changed its input %d", what, i)
	}
	if inPl != nil && y.Viol == nil {
		// perhaps fewer levels, but the same content under the same label
		a := inPl.ct
		ok := a.Level() >= 0 && a.Level() < len(before) && a.Scale == s0
		if y.Check(ok, "truth", "%s left level %d and scale %v of %d and %v", what, a.Level(), a.Scale, len(before)-1, s0) {
			w.near(what, w.phase(a, 0), before, nil)
		}
	} else if c.out != nil && c.out.Degree() >= 0 && c.out.Level() >= 0 && len(w.recv) < 4 {
		w.recv = append(w.recv, c.out)
	}
	st.Fault("call_refused")
	st.StateS("refused %s", kind)
}
