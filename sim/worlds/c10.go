package worlds

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"sort"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
	"vsim/lab"
	"vsim/run"
	"vsim/sched"
)

// A client encodes and encrypts messages and has a graph of jobs carried out by workers that hold evaluation keys (all or
// some). Jobs, ciphertexts, results and keys travel as blobs over a network that delays, drops, duplicates and reorders;
// client and workers crash and restart from what is on their disks, where the last write may be torn. Workers keep
// evaluators, encoders, decoded ciphertexts and receivers from job to job. After each execution, and when the client
// decrypts and decodes, the values are compared with the same computation on the messages, within the error that the
// parameters imply.

func init() {
	run.Register(&run.Prop{
		ID: "C10", Quick: 20000, Thorough: 300000,
		Worlds: []*run.World{
			{Kind: "outsourced", Weight: 4, Gen: genC10(false), Exec: execC10},
			{Kind: "fast", Weight: 1, Gen: genC10(true), Exec: execC10},
		},
		Rule:   "one evaluation is one executed job whose level, degree and scale or whose decrypted slots were compared with the computation on the messages, one repeated execution compared with the first, or one message decrypted and decoded by the client; distinct are (operation, receiver, level, degree, ring type, packing) states and orders of events",
		Real:   []string{"ckks encoders, encryptors, decryptors, evaluators with their key switchers", "fckks evaluator, encryptor and decryptor, frlwe keys (world fast)", "parameter, key and ciphertext marshalling"},
		Stub:   []string{"network (delay, drop, duplicate, reorder)", "disks (torn last write)", "crash and restart (volatile engines, receivers and decoded objects are lost)", "crypto/rand (simulated device)", "keys of the fast engine have no encoding: they are handed over as objects"},
		Assume: []string{"worst-case error bounds: fresh encryption, key switching and rounding errors multiplied by the ring degree", "the client's own arithmetic uses doubles", "operations whose result would exceed the modulus, or keep less than 2^-6 precision, are not asked for"},
	})
}

var c10Ops = []string{"enc", "add", "sub", "addpt", "subpt", "mul", "mulpt", "mulrelin", "mulrescale", "square", "rescale", "rotate", "conj", "rotsum", "hoist",
	"addconst", "mulconst", "mulgauss", "multi", "divi", "neg", "mulpow2", "scaleup", "setscale", "match", "droplevel", "reduce", "relin", "switchkeys",
	"mulconstadd", "mulgaussadd", "mulandadd", "dec"}

func genC10(fast bool) func(p *run.Plan, r *core.RNG, thorough bool) {
	return func(p *run.Plan, r *core.RNG, thorough bool) {
		mq, mn := 6, 6
		if thorough {
			mq, mn = 10, 7
		}
		s := lab.RandShape(r, mn, mq, 1, 2)
		if thorough && r.P(0.1) {
			s.LogN = 7
		}
		s.NQ = 2 + r.N(mq-1)
		if r.P(0.06) {
			s.NQ = 1
		}
		s.Sigma = 0
		if r.P(0.1) {
			s.NP = 0
		}
		if r.P(0.02) {
			s.Long(r)
		} else if r.P(0.015) {
			s.Wide(r, 11)
		}
		if fast {
			s.CI = 0
			s.NP = max(s.NP, 1)
			p.Set("gamma", 1+r.N(min(s.NQ+s.NP+1, 6)))
			p.Set("tb", max(54, max(s.Q0, s.QB+2))+r.N(3))
			p.Set("tseed", r.N(1<<20))
			p.Set("fast", 1)
		}
		s.Put(p)
		d := s.QB - r.N(3)
		if r.P(0.3) {
			d = 26 + r.N(max(1, s.QB-26))
		}
		p.Set("dscale", d)
		ls := s.LogN - 1
		if s.CI == 1 {
			ls++
		}
		if r.P(0.4) {
			ls = r.N(ls + 1)
		}
		p.Set("logslots", ls)
		nw := 1 + r.N(3)
		p.Set("workers", nw)
		p.Set("lat", 1+r.N(30))
		p.Set("nrot", 1+r.N(3))
		n := 10 + r.N(16)
		w := []int{12, 8, 7, 4, 3, 4, 5, 8, 8, 3, 8, 7, 4, 3, 2, 4, 5, 2, 2, 2, 3, 2, 2, 3, 4, 3, 2, 3, 2, 2, 2, 3, 6}
		if r.P(0.3) { // a swarm: some operations often, others not at all
			for i := range w {
				w[i] *= r.W(1, 2, 1) * (1 + 3*r.W(3, 1))
			}
			w[0] += 4
			w[1]++
		}
		for k := 0; k < n; k++ {
			op := c10Ops[r.W(w...)]
			if k < 2 {
				op = "enc"
			}
			p.Add(0, op, int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.U64()>>2))
		}
		m := 3 * n
		if r.P(0.8) {
			for k := r.N(6); k > 0; k-- {
				p.Add(1, "drop", int64(r.N(m)))
			}
			for k := r.N(5); k > 0; k-- {
				p.Add(1, "dup", int64(r.N(m)), int64(r.N(100)))
			}
			for k := r.N(5); k > 0; k-- {
				p.Add(1, "late", int64(r.N(m)), int64(1+r.N(400)))
			}
			for k := r.N(5); k > 0; k-- {
				p.Add(1, "crash", int64(r.N(m)), int64(r.N(1<<10)), int64(1+r.N(200)), int64(r.N(4)), int64(r.N(1<<20)))
			}
		}
	}
}

type c10Pt struct {
	vals   interface{}
	coeffs []float64
	ls     int
	lvl    int
	scale  float64
	big    bool
	v      []complex128 // in all slots
	err    float64
}

type c10Spec struct {
	op      string
	a, b, c int // roots
	pt      *c10Pt
	swap    bool
	call    evCall
	rots    []int
	conj    bool
	relin   bool
	rekey   bool
	anyScl  bool // the result's scale is the engine's choice, within limits
	ints    bool // an integer constant
	scl     func(got float64, want *c10Val) string
}

type c10Job struct {
	idx   int
	s     *run.Step
	spec  *c10Spec
	want  *c10Val
	alias int
	done  bool
	blob  []byte
	dig   uint64
	execs int
	tries int
	next  int64 // when to send again
}

type c10Node struct {
	id      int
	up      bool
	disk    map[string][]byte
	last    string // last file written
	ready   bool
	p       ckks.Parameters
	evs     []ckks.Evaluator
	fev     *fckks.Evaluator
	rtks    *rlwe.RotationKeySet
	swk     *rlwe.SwitchingKey
	ecd     ckks.Encoder
	big     ckks.EncoderBigComplex
	cache   map[int]*ckks.Ciphertext
	order   []int
	spare   []*ckks.Ciphertext
	using   map[int]*ckks.Ciphertext // inputs of the job at hand
	pts     []*ckks.Plaintext
	used    int
	starts  int
	encs    []ckks.Encryptor
	decs    [2]ckks.Decryptor
	fenc    *fckks.Encryptor
	fdec    *fckks.Decryptor
	askedAt int64
}

type c10Msg struct {
	from, to int
	kind     string
	job      int
	ids      []int
	blobs    map[int][]byte
	blob     []byte
	keys     map[string][]byte
}

type c10Ev struct {
	at   int64
	seq  int
	msg  *c10Msg
	tick int // node+1
	boot int // node+1
}

type c10 struct {
	y     *Sys
	t     *sched.Task
	p     ckks.Parameters
	fp    fckks.Parameters
	fast  bool
	m     *slotMap
	G     float64
	cf    int64
	sk    [2]*rlwe.SecretKey
	s     [2]lab.Rows
	ints  [2][]int64
	pk    *rlwe.PublicKey
	rots  []int
	conj  bool
	keys  []map[string][]byte // per node: its files
	frlk  *frlwe.RelinKey
	frtk  map[int]*frlwe.RotationKey
	nodes []*c10Node
	jobs  []*c10Job
	now   int64
	seq   int
	sent  int
	evs   []*c10Ev
	drop  map[int]bool
	dup   map[int]int64
	late  map[int]int64
	crash []*run.Step
	nev   int
	hist  uint64
	aux   int
}

func execC10(p *run.Plan, st *run.Stats) *run.Violation {
	w := &c10{y: &Sys{P: p, St: st}, fast: p.Get("fast") == 1, hist: 10}
	if !w.setup() {
		return w.y.Viol
	}
	w.y.Solo(nil, nil, func(t *sched.Task) {
		w.t = t
		w.run()
	})
	st.Inter[w.hist] = true
	st.Log(w.hist)
	return w.y.Viol
}

func (w *c10) setup() bool {
	pl := w.y.P
	shape := lab.GetShape(pl)
	r := core.NewRNG(pl.Seed ^ 0x10)
	scale := math.Ldexp(1, pl.Get("dscale"))
	q, P := shape.Moduli()
	var T []uint64
	if w.fast {
		T = auxModuli(pl, q, P, 1<<uint(shape.LogN))
	}
	var err error
	return w.y.Setup(-1, func() {
		if w.fast {
			w.fp = fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: shape.LogN, Q: q, P: P, T: T, H: shape.H, Sigma: shape.SigmaF(), LogSlots: pl.Get("logslots"), DefaultScale: scale, Gamma: pl.Get("gamma")})
			w.p = w.fp.Parameters
		} else {
			w.p = shape.CKKS(pl.Get("logslots"), scale)
		}
		p := w.p
		w.m = newSlotMap(p.RingQ())
		w.cf = 1
		if shape.CI == 1 {
			w.cf = 2
		}
		w.G = float64(w.cf) * float64(p.N())
		kg := ckks.NewKeyGenerator(p)
		w.sk[0], w.sk[1] = kg.GenSecretKey(), kg.GenSecretKey()
		w.pk = kg.GenPublicKey(w.sk[0])
		slots := w.m.slots
		for k := 1; k < slots && k <= 8; k <<= 1 {
			w.rots = append(w.rots, k)
		}
		for i := pl.Get("nrot"); i > 0; i-- {
			w.rots = append(w.rots, r.N(2*slots)-slots)
		}
		w.conj = shape.CI == 0
		nn := 1 + max(1, pl.Get("workers"))
		w.keys = make([]map[string][]byte, nn)
		files := map[string][]byte{}
		put := func(m map[string][]byte, name string, x interface{ MarshalBinary() ([]byte, error) }) {
			b, e := x.MarshalBinary()
			if e != nil {
				err = e
			}
			m[name] = b
		}
		put(files, "params", p)
		var rtks *rlwe.RotationKeySet
		if w.fast {
			fkg := fckks.NewKeyGenerator(w.fp)
			w.frlk = fkg.GenRelinKey(w.sk[0])
			w.frtk = map[int]*frlwe.RotationKey{}
			for _, k := range w.rots {
				if w.frtk[k] == nil {
					w.frtk[k] = fkg.GenRotKey(k, w.sk[0])
				}
			}
		} else if shape.NP > 0 {
			put(files, "rlk", kg.GenRelinearizationKey(w.sk[0], 1+int(pl.Seed%3)/2))
			put(files, "swk", kg.GenSwitchingKey(w.sk[0], w.sk[1]))
			rtks = kg.GenRotationKeysForRotations(w.rots, w.conj, w.sk[0])
		}
		for i := range w.keys {
			w.keys[i] = map[string][]byte{}
			for k, v := range files {
				w.keys[i][k] = v
			}
			if rtks != nil && i > 0 {
				set := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}
				els := make([]uint64, 0)
				for g := range rtks.Keys {
					els = append(els, g)
				}
				sort.Slice(els, func(a, b int) bool { return els[a] < els[b] })
				for _, g := range els {
					if i == 1 || r.P(0.6) {
						set.Keys[g] = rtks.Keys[g]
					}
				}
				put(w.keys[i], "rtks", set)
			}
		}
		put(w.keys[0], "sk0", w.sk[0])
		put(w.keys[0], "sk1", w.sk[1])
		put(w.keys[0], "pk", w.pk)
		if err != nil {
			panic(err)
		}
		sched.Pause(func() {
			for i := range w.sk {
				x := lab.ReadSecret(p.Parameters, w.sk[i])
				w.ints[i], w.s[i] = x.Ints, x.Q
			}
		})
	})
}

// ---- the computation on the messages ----

func (w *c10) fits(maxv, scale float64, lvl int) bool {
	if lvl < 0 || lvl > w.p.MaxLevel() {
		return false
	}
	lq := 0.0
	for i := 0; i <= lvl; i++ {
		lq += math.Log2(float64(w.p.Q()[i]))
	}
	return math.Log2(maxv+1e-9)+math.Log2(scale) < lq-3 && scale > 1<<16 && scale < math.Ldexp(1, 500)
}

func (w *c10) ksw(lvl, sec int, scale float64) float64 {
	return w.G * bigF(kswBound(w.p.Parameters, lvl, w.ints[sec])) / scale
}

func (w *c10) round(deg, sec int, scale float64) float64 {
	b, pw := 2.0, 1.0
	for d := 0; d <= deg; d++ {
		b += pw
		pw *= float64(w.cf * lab.L1(w.ints[sec]))
	}
	return w.G * 2 * b / scale
}

// values draws a message.
func (w *c10) values(r *core.RNG, pt *c10Pt) {
	maxLs := w.p.MaxLogSlots()
	mag := math.Ldexp(1, r.N(5)-2)
	num := func() float64 { return mag * (2*r.F() - 1) }
	if r.P(0.12) {
		// coefficients
		n := 1 + r.N(w.p.N())
		if r.P(0.5) {
			n = w.p.N()
		}
		pt.coeffs = make([]float64, n)
		for i := range pt.coeffs {
			pt.coeffs[i] = num() / 4
		}
		pt.v = w.m.eval(pt.coeffs)
		pt.ls = maxLs
		return
	}
	pt.ls = maxLs
	switch r.N(4) {
	case 0:
		pt.ls = r.N(maxLs + 1)
	case 1:
		pt.ls = w.p.LogSlots()
	}
	n := 1 << uint(pt.ls)
	pt.big = w.cf == 1 && w.p.LogN() <= 5 && r.P(0.06)
	if !pt.big && r.P(0.3) {
		n = 1 + r.N(n)
	}
	v := make([]complex128, n)
	for i := range v {
		v[i] = complex(num(), num())
		if w.cf == 2 {
			v[i] = complex(real(v[i]), 0)
		}
		switch r.N(30) {
		case 0:
			v[i] = 0
		case 1:
			v[i] = complex(math.Round(real(v[i])), 0)
		}
	}
	pt.vals = v
	if !pt.big && r.P(0.2) {
		f := make([]float64, n)
		for i := range f {
			f[i] = real(v[i])
			v[i] = complex(f[i], 0)
		}
		pt.vals = f
	}
	pt.v = fill(v, pt.ls, w.m.slots)
}

func (w *c10) encErr(pt *c10Pt) float64 {
	m := maxC(pt.v)
	return w.G * (1 + math.Ldexp(m*pt.scale, -44)) / pt.scale
}

func (w *c10) root(i int) int {
	for w.jobs[i].alias >= 0 {
		i = w.jobs[i].alias
	}
	return i
}

// c10Window is the number of earlier jobs among which a fitting operand is looked for.
const c10Window = 5

// ready says whether a job's arguments are there.
func (w *c10) ready(j *c10Job) bool {
	if j.idx == 0 {
		return true
	}
	for i := 0; i < 3; i++ {
		n := 1
		if i > 0 {
			n = c10Window
		}
		for k := 0; k < n; k++ {
			if !w.jobs[(j.s.Mod(i, j.idx)+k)%j.idx].done {
				return false
			}
		}
	}
	return true
}

// ratio of two scales, if a whole one up to 2^-20; slack is the relative error it causes.
func ratioOf(a, b float64) (k, slack float64, ok bool) {
	if a < b {
		a, b = b, a
	}
	x := a / b
	k = math.Round(x)
	slack = math.Abs(k-x) / k
	return k, 2*slack + 1e-14, slack < math.Ldexp(1, -20) && k < math.Ldexp(1, 60)
}

// plan decides what a job whose arguments are there asks for; nil if there is nothing sensible to ask.
func (w *c10) plan(j *c10Job) (*c10Spec, *c10Val) {
	p := w.p
	maxL := p.MaxLevel()
	def := p.DefaultScale()
	r := core.NewRNG(core.H(uint64(j.s.Arg(3)), 110))
	op := j.s.Op
	sp := &c10Spec{op: op, a: -1, b: -1, c: -1}
	if op == "enc" || j.idx == 0 {
		sp.op = "enc"
		pt := &c10Pt{lvl: maxL, scale: def}
		if r.P(0.3) {
			pt.lvl = r.N(maxL + 1)
		}
		if r.P(0.2) {
			pt.scale = math.Ldexp(def, r.N(9)-4)
		}
		w.values(r, pt)
		// sometimes at the scale of a product, to be added to
		if j.idx > 1 && r.P(0.2) {
			if a := w.jobs[w.root(j.s.Mod(1, j.idx))]; a.want != nil && a.want.scale < 1<<45 {
				pt.scale = a.want.scale * a.want.scale
			}
		}
		for !w.fits(maxC(pt.v), pt.scale, pt.lvl) {
			if pt.lvl < maxL {
				pt.lvl++
			} else {
				pt.scale /= 4
			}
			if pt.scale < 1<<20 {
				run.Fail("no room for a message: %+v", lab.GetShape(w.y.P))
			}
		}
		sp.pt = pt
		// public key, with or without special modulus: take the larger bound
		e := float64(encBound(p.Parameters, lab.L1(w.ints[0]), true))
		e = math.Max(e, float64(encBound(p.Parameters, lab.L1(w.ints[0]), false)))
		return sp, &c10Val{v: pt.v, err: w.encErr(pt) + w.G*e/pt.scale, scale: pt.scale, lvl: pt.lvl, deg: 1, ls: pt.ls}
	}
	sp.a, sp.b, sp.c = w.root(j.s.Mod(0, j.idx)), w.root(j.s.Mod(1, j.idx)), w.root(j.s.Mod(2, j.idx))
	A, B, C := w.jobs[sp.a].want, w.jobs[sp.b].want, w.jobs[sp.c].want
	keys := p.PCount() > 0
	// what fits the operation may have to be looked for
	prefer := func(good func(x *c10Val) bool) {
		for i := 0; i < c10Window; i++ {
			k := w.root((j.s.Mod(1, j.idx) + i) % j.idx)
			if x := w.jobs[k].want; x != nil && good(x) {
				sp.b, B = k, x
				return
			}
		}
	}
	if A.deg == 2 {
		switch op {
		case "mul", "mulpt", "mulrelin", "mulrescale", "square", "rotate", "conj", "rotsum", "hoist", "switchkeys", "mulandadd":
			op = "relin"
			sp.op = op
		}
	}
	n := *A
	n.v = append([]complex128(nil), A.v...)
	want := &n
	ok := true
	mv := A.max() + A.err
	keyed := func() bool { return keys && A.sec == 0 }
	ptOperand := func(scale float64) {
		pt := &c10Pt{lvl: maxL, scale: scale}
		if r.P(0.5) {
			pt.lvl = r.N(maxL + 1)
		}
		w.values(r, pt)
		if pt.scale < 1<<16 || !w.fits(maxC(pt.v), pt.scale, pt.lvl) {
			ok = false
			return
		}
		pt.err = w.encErr(pt)
		sp.pt = pt
		sp.swap = r.P(0.2)
	}
	sum := func(bv []complex128, be, bs float64, neg bool) {
		_, slack, good := ratioOf(A.scale, bs)
		if !good {
			ok = false
			return
		}
		sg := complex(1, 0)
		if neg {
			sg = -1
		}
		for i := range want.v {
			if sp.swap {
				want.v[i] = bv[i] + sg*A.v[i]
			} else {
				want.v[i] = A.v[i] + sg*bv[i]
			}
		}
		want.err = A.err + be
		if A.scale != bs {
			want.err += slack * (A.max() + maxC(bv) + A.err + be)
		}
		want.scale = math.Max(A.scale, bs)
	}
	prod := func(bv []complex128, be float64) {
		for i := range want.v {
			want.v[i] = A.v[i] * bv[i]
		}
		mb := maxC(bv)
		want.err = A.max()*be + mb*A.err + A.err*be
	}
	switch op {
	case "add", "sub":
		prefer(func(x *c10Val) bool { _, _, g := ratioOf(x.scale, A.scale); return g && x.sec == A.sec })
		if B.sec != A.sec {
			return nil, nil
		}
		sum(B.v, B.err, B.scale, op == "sub")
		want.lvl, want.deg, want.ls = min(A.lvl, B.lvl), max(A.deg, B.deg), max(A.ls, B.ls)
		if r.P(0.2) {
			sp.op = op + "nomod"
		}
	case "addpt", "subpt":
		s := A.scale
		if r.P(0.2) {
			s = math.Ldexp(s, r.N(5)-2)
		}
		ptOperand(s)
		if !ok {
			return nil, nil
		}
		sum(sp.pt.v, sp.pt.err, sp.pt.scale, op == "subpt")
		want.lvl, want.ls = min(A.lvl, sp.pt.lvl), max(A.ls, sp.pt.ls)
		sp.op = op[:3]
	case "mulpt":
		s := float64(p.Q()[A.lvl])
		if r.P(0.5) {
			s = math.Ldexp(1, 20+r.N(20))
		}
		ptOperand(s)
		if !ok {
			return nil, nil
		}
		prod(sp.pt.v, sp.pt.err)
		want.scale = A.scale * sp.pt.scale
		want.lvl, want.ls = min(A.lvl, sp.pt.lvl), max(A.ls, sp.pt.ls)
		sp.op = "mul"
		if !w.fast && keyed() && r.P(0.3) {
			sp.op = "mulrelin"
		}
	case "mul", "mulrelin", "mulrescale", "square":
		if op == "square" {
			sp.b, B = sp.a, A
		} else {
			prefer(func(x *c10Val) bool {
				return x.deg == 1 && x.sec == A.sec && w.fits((x.max()+x.err)*mv, x.scale*A.scale, min(x.lvl, A.lvl))
			})
		}
		if B.deg != 1 || B.sec != A.sec {
			return nil, nil
		}
		prod(B.v, B.err)
		want.scale = A.scale * B.scale
		want.lvl, want.deg, want.ls = min(A.lvl, B.lvl), 2, max(A.ls, B.ls)
		relin := op != "mul" && keyed()
		sp.op = "mul"
		if relin {
			sp.op = "mulrelin"
			want.deg = 1
			sp.relin = true
			want.err += w.ksw(want.lvl, 0, want.scale)
		}
		if op == "mulrescale" || op == "square" && r.P(0.5) {
			if want.lvl > 0 && w.rescaled(want, def) > 0 {
				sp.op += "+rescale"
				sp.call.f = def
			}
		}
	case "rescale":
		if A.lvl == 0 {
			return nil, nil
		}
		ms := def
		if r.P(0.3) {
			ms = A.scale / float64(p.Q()[A.lvl]) * (0.5 + r.F())
		}
		if ms <= 0 || w.rescaled(want, ms) == 0 && r.P(0.5) {
			return nil, nil
		}
		sp.call.f = ms
	case "rotate", "hoist":
		if !keyed() || A.deg != 1 {
			return nil, nil
		}
		k := w.rots[r.N(len(w.rots))]
		if w.fast {
			sp.op = "rotate"
		} else if r.P(0.1) {
			k = 0
		}
		sp.call.k = k
		if k != 0 || w.fast {
			sp.rots = []int{k}
		}
		if sp.op == "hoist" {
			sp.call.nmd = r.N(3)
			sp.call.ks = []int{k}
			for i := r.N(3); i > 0; i-- {
				k2 := w.rots[r.N(len(w.rots))]
				sp.call.ks = append(sp.call.ks, k2)
				if k2 != 0 {
					sp.rots = append(sp.rots, k2)
				}
			}
		}
		want.v = rotC(A.v, k)
		want.err += w.ksw(A.lvl, 0, A.scale)
	case "conj":
		if !keyed() || !w.conj || w.fast {
			return nil, nil
		}
		sp.conj = true
		want.v = mapC(A.v, func(_ int, x complex128) complex128 { return cmplx.Conj(x) })
		want.err += w.ksw(A.lvl, 0, A.scale)
	case "rotsum":
		if !keyed() {
			return nil, nil
		}
		for k := 1; k < w.m.slots && k <= 1<<uint(r.N(4)); k <<= 1 {
			sp.rots = append(sp.rots, k)
			x := rotC(want.v, k)
			for i := range x {
				want.v[i] += x[i]
			}
			want.err = 2*want.err + w.ksw(A.lvl, 0, A.scale)
		}
		if len(sp.rots) == 0 {
			return nil, nil
		}
	case "addconst":
		c, re, im := w.constant(r, true)
		sp.call.c = c
		z := complex(re, im)
		want.v = mapC(A.v, func(_ int, x complex128) complex128 { return x + z })
		want.err += w.G*2/A.scale + math.Ldexp(cmplx.Abs(z), -44)
	case "mulconst", "mulconstadd":
		c, re, im := w.constant(r, true)
		sp.call.c = c
		z := complex(re, im)
		exact := re == math.Trunc(re) && im == math.Trunc(im)
		az := cmplx.Abs(z)
		S := 1.0
		if !exact {
			S = float64(p.Q()[A.lvl])
		}
		want.err = az*A.err + (A.max()+A.err)*(4/S+math.Ldexp(az, -44))
		if exact {
			want.err = az * A.err
		}
		want.v = mapC(A.v, func(_ int, x complex128) complex128 { return x * z })
		want.scale = A.scale * S
		if op == "mulconst" {
			sp.anyScl = !exact
			break
		}
		prefer(func(x *c10Val) bool {
			_, _, g := ratioOf(x.scale, want.scale)
			return g && x.scale <= want.scale && x.sec == A.sec && x.deg >= A.deg && x.lvl >= A.lvl
		})
		_, slack, g := ratioOf(B.scale, want.scale)
		if !exact && B.scale == A.scale {
			// the engine scales the constant itself
			sp.anyScl = true
			slack, g = math.Ldexp(1, -20), true
		}
		if !g || B.scale > want.scale || B.sec != A.sec || B.deg < A.deg || B.lvl < A.lvl {
			return nil, nil
		}
		sp.b, sp.a = sp.a, sp.b // what is added to comes first: it may be worked on in place
		want.deg, want.ls = B.deg, max(A.ls, B.ls)
		want.err += B.err + slack*(B.max()+B.err) + 1e-12*(B.max())
		for i := range want.v {
			want.v[i] += B.v[i]
		}
	case "mulgauss", "mulgaussadd":
		g := func() (interface{}, float64) {
			v := int64(r.N(17) - 8)
			switch r.N(3) {
			case 0:
				if v < 0 {
					v = -v
				}
				return uint64(v), float64(v)
			case 1:
				return v, float64(v)
			}
			return big.NewInt(v), float64(v)
		}
		var re, im float64
		sp.call.c, re = g()
		sp.call.c2, im = g()
		if w.cf == 2 {
			im = 0
		}
		z := complex(re, im)
		want.v = mapC(A.v, func(_ int, x complex128) complex128 { return x * z })
		want.err *= cmplx.Abs(z)
		if op == "mulgauss" {
			break
		}
		prefer(func(x *c10Val) bool { return relErr(x.scale, A.scale) < 1e-9 && x.sec == A.sec && x.deg >= A.deg })
		if relErr(B.scale, A.scale) > 1e-9 || B.sec != A.sec || B.deg < A.deg {
			return nil, nil
		}
		sp.b, sp.a = sp.a, sp.b
		want.deg, want.ls, want.lvl, want.scale = B.deg, max(A.ls, B.ls), min(A.lvl, B.lvl), B.scale
		want.err += B.err + 2e-9*A.max()*cmplx.Abs(z)
		for i := range want.v {
			want.v[i] += B.v[i]
		}
	case "multi", "divi":
		if w.cf == 2 {
			return nil, nil
		}
		z := complex(0, 1)
		if op == "divi" {
			z = complex(0, -1)
		}
		want.v = mapC(A.v, func(_ int, x complex128) complex128 { return x * z })
	case "neg":
		want.v = mapC(A.v, func(_ int, x complex128) complex128 { return -x })
	case "mulpow2":
		sp.call.k = r.N(5)
		f := math.Ldexp(1, sp.call.k)
		want.v = mapC(A.v, func(_ int, x complex128) complex128 { return x * complex(f, 0) })
		want.err *= f
	case "scaleup":
		f := float64(1 + r.N(1<<uint(1+r.N(20))))
		sp.call.f = f
		want.scale *= f
	case "setscale", "match":
		if A.lvl == 0 {
			return nil, nil
		}
		s := A.scale * math.Ldexp(0.5+r.F(), r.N(8)-4)
		if op == "match" {
			// to the scale of another, and then added to it
			prefer(func(x *c10Val) bool {
				return x.sec == A.sec && x.scale != A.scale && x.scale/A.scale < math.Ldexp(1, 20) && w.fits(mv, x.scale, A.lvl-1)
			})
			if B.sec != A.sec {
				return nil, nil
			}
			s = B.scale
		}
		ratio := s / A.scale
		f := ratio * float64(p.Q()[A.lvl])
		if f < 1<<22 || ratio > math.Ldexp(1, 60) || !w.fits(mv, s, A.lvl-1) {
			return nil, nil
		}
		sp.call.f = s
		want.scale = s
		want.err += mv*(4/f+math.Ldexp(1, -44)) + w.round(A.deg, A.sec, s)
		if ratio != math.Trunc(ratio) || ratio < 1 {
			want.lvl--
		}
		sp.op = "setscale"
		if op == "match" {
			sp.op = "match"
			for i := range want.v {
				want.v[i] += B.v[i]
			}
			want.err += B.err
			want.lvl, want.deg, want.ls = min(want.lvl, B.lvl), max(A.deg, B.deg), max(A.ls, B.ls)
		}
	case "droplevel":
		k := r.N(A.lvl + 1)
		for k > 0 && !w.fits(mv, A.scale, A.lvl-k) {
			k--
		}
		sp.call.k = k
		want.lvl -= k
	case "reduce":
	case "relin":
		if A.deg != 2 || !keyed() || w.fast {
			return nil, nil
		}
		sp.relin = true
		want.deg = 1
		want.err += w.ksw(A.lvl, 0, A.scale)
	case "switchkeys":
		if !keyed() || w.fast {
			return nil, nil
		}
		sp.rekey = true
		want.sec = 1
		want.err += w.ksw(A.lvl, 1, A.scale)
	case "mulandadd":
		if w.fast {
			return nil, nil
		}
		if B.deg != 1 || B.sec != A.sec || !w.fits((B.max()+B.err)*mv, B.scale*A.scale, min(B.lvl, A.lvl)) {
			prefer(func(x *c10Val) bool {
				return x.deg == 1 && x.sec == A.sec && w.fits((x.max()+x.err)*mv, x.scale*A.scale, min(x.lvl, A.lvl))
			})
		}
		if B.deg != 1 || B.sec != A.sec {
			return nil, nil
		}
		relin := keyed() && r.P(0.7)
		ps := A.scale * B.scale
		good := func(x *c10Val) bool {
			_, _, g := ratioOf(x.scale, ps)
			return g && x.scale <= ps*(1+1e-12) && x.sec == A.sec && x.deg == 2-b2i(relin)
		}
		for i := 0; i < c10Window && !good(C); i++ {
			k := w.root((j.s.Mod(2, j.idx) + i) % j.idx)
			if x := w.jobs[k].want; x != nil && good(x) {
				sp.c, C = k, x
			}
		}
		if !good(C) {
			return nil, nil
		}
		_, slack, _ := ratioOf(C.scale, ps)
		prod(B.v, B.err)
		want.scale = math.Max(ps, C.scale)
		want.lvl, want.deg, want.ls = min(min(A.lvl, B.lvl), C.lvl), 2, max(max(A.ls, B.ls), C.ls)
		sp.op = "mulandadd"
		if relin {
			sp.op = "mulrelinandadd"
			want.deg = 1
			sp.relin = true
			want.err += w.ksw(want.lvl, 0, want.scale)
		}
		want.err += C.err + slack*(C.max()+C.err)
		for i := range want.v {
			want.v[i] += C.v[i]
		}
	default:
		run.Fail("job %s", op)
	}
	m := want.max()
	want.err += math.Ldexp(m+1, -44)
	if !ok || !w.fits(m+want.err, want.scale, want.lvl) || want.err > math.Ldexp(math.Max(m, 0.25), -6) || m > 1<<20 {
		return nil, nil
	}
	return sp, want
}

// rescaled applies a rescaling to a value and returns the number of moduli dropped.
func (w *c10) rescaled(x *c10Val, ms float64) (n int) {
	q := w.p.Q()
	for x.lvl > 0 && x.scale/float64(q[x.lvl]) >= ms/2 {
		x.scale /= float64(q[x.lvl])
		x.lvl--
		n++
	}
	if n > 0 {
		x.err += w.round(x.deg, x.sec, x.scale)
	}
	return
}

func (w *c10) constant(r *core.RNG, rat bool) (c interface{}, re, im float64) {
	n := float64(r.N(13) - 6)
	switch r.N(6) {
	case 0:
		return uint64(math.Abs(n)), math.Abs(n), 0
	case 1:
		return int64(n), n, 0
	case 2:
		return int(n), n, 0
	case 3:
		x := 4*r.F() - 2
		return x, x, 0
	case 4:
		re, im = float64(r.N(9)-4), float64(r.N(9)-4)
	default:
		re, im = 4*r.F()-2, 4*r.F()-2
		if r.P(0.2) {
			re = 0
		}
		if r.P(0.2) {
			im = 0
		}
		if r.P(0.2) {
			re = math.Round(re)
		}
		if r.P(0.2) {
			im = math.Round(im)
		}
	}
	if w.cf == 2 && re == math.Trunc(re) {
		// in the ring of real polynomials the imaginary part counts for
		// nothing, but for whether the constant is an integer
		im = math.Trunc(im)
	}
	c = complex(re, im)
	if w.cf == 2 {
		im = 0
	}
	return
}

// ---- network, disks, crashes ----

func (w *c10) send(m *c10Msg) {
	n := w.sent
	w.sent++
	r := core.NewRNG(core.H(w.y.P.Seed, uint64(n), 1010))
	st := w.y.St
	if w.drop[n] {
		st.Fault("message_lost")
		return
	}
	d := 1 + int64(r.N(w.y.P.Get("lat")+1))
	if x := w.late[n]; x > 0 {
		d += x
		st.Fault("message_delayed")
	}
	w.at(&c10Ev{at: w.now + d, msg: m})
	if x, ok := w.dup[n]; ok {
		w.at(&c10Ev{at: w.now + d + x, msg: m})
		st.Fault("message_duplicated")
	}
}

func (w *c10) at(e *c10Ev) {
	w.seq++
	e.seq = w.seq
	w.evs = append(w.evs, e)
}

func (w *c10) write(nd *c10Node, name string, b []byte) {
	nd.disk[name] = append([]byte(nil), b...)
	nd.last = name
}

func (w *c10) run() {
	y := w.y
	w.drop, w.dup, w.late = map[int]bool{}, map[int]int64{}, map[int]int64{}
	budget := int64(3000)
	for i := range y.P.Steps {
		s := &y.P.Steps[i]
		if s.T == 0 {
			w.jobs = append(w.jobs, &c10Job{idx: len(w.jobs), s: s, alias: -1})
			budget += 800
			continue
		}
		n := s.Mod(0, 1<<20)
		switch s.Op {
		case "drop":
			w.drop[n] = true
			budget += 200
		case "dup":
			w.dup[n] = int64(s.Mod(1, 200))
		case "late":
			w.late[n] = int64(s.Mod(1, 1000))
			budget += w.late[n]
		case "crash":
			w.crash = append(w.crash, s)
			budget += 600
		}
	}
	for i, k := range w.keys {
		nd := &c10Node{id: i, disk: map[string][]byte{}}
		for name, b := range k {
			nd.disk[name] = b
		}
		nd.last = []string{"params", "rlk", "rtks"}[i%3]
		w.nodes = append(w.nodes, nd)
		w.boot(nd)
	}
	w.at(&c10Ev{at: 1, tick: 1})
	final := false
	for len(w.evs) > 0 && y.Viol == nil {
		k := 0
		for i, e := range w.evs {
			if b := w.evs[k]; e.at < b.at || e.at == b.at && e.seq < b.seq {
				k = i
			}
		}
		e := w.evs[k]
		w.evs = append(w.evs[:k], w.evs[k+1:]...)
		w.now = e.at
		w.nev++
		if !y.Check(w.now <= budget, "no-progress", "%d of %d jobs done after %d ticks and %d events", w.done(), len(w.jobs), w.now, w.nev) {
			return
		}
		switch {
		case e.boot > 0:
			w.boot(w.nodes[e.boot-1])
		case e.tick > 0:
			if w.nodes[0].up && e.tick == w.nodes[0].starts {
				w.pump()
				if w.done() < len(w.jobs) {
					w.at(&c10Ev{at: w.now + 40, tick: e.tick})
				}
			}
		default:
			w.hist = core.H(w.hist, uint64(e.msg.job), uint64(e.msg.to), core.HS(e.msg.kind))
			w.deliver(e.msg)
		}
		y.St.Steps++
		for i := 0; i < len(w.crash) && y.Viol == nil; i++ {
			if s := w.crash[i]; int(s.Arg(0)) <= w.nev {
				w.crash = append(w.crash[:i], w.crash[i+1:]...)
				i--
				w.kill(s)
			}
		}
		if !final && w.done() == len(w.jobs) && w.nodes[0].up {
			final = true
			w.finish()
		}
	}
	y.St.SimTime += w.now
	if y.Viol == nil {
		y.Check(final, "no-progress", "%d of %d jobs done and nothing left to happen", w.done(), len(w.jobs))
	}
}

func (w *c10) done() (n int) {
	for _, j := range w.jobs {
		n += b2i(j.done)
	}
	return
}

func (w *c10) kill(s *run.Step) {
	nd := w.nodes[s.Mod(1, len(w.nodes))]
	if !nd.up {
		return
	}
	nd.up = false
	if b := nd.disk[nd.last]; s.Mod(3, 4) == 0 && len(b) > 0 && nd.id > 0 {
		// the last write did not make it as a whole
		nd.disk[nd.last] = b[:s.Mod(4, len(b))]
		w.y.St.Fault("torn_write")
	}
	*nd = c10Node{id: nd.id, disk: nd.disk, last: nd.last, starts: nd.starts}
	w.y.St.Fault("crash_restart")
	w.hist = core.H(w.hist, uint64(nd.id), 0xdead)
	w.at(&c10Ev{at: w.now + int64(1+s.Mod(2, 300)), boot: nd.id + 1})
}

// lib makes library calls of the system's own.
func (w *c10) lib(f func()) sched.Outcome {
	w.aux++
	return w.t.Step(1000000+w.aux, f)
}

// boot starts a node from its disk.
func (w *c10) boot(nd *c10Node) {
	nd.up, nd.cache = true, map[int]*ckks.Ciphertext{}
	nd.starts++
	w.load(nd)
	if nd.id == 0 {
		for _, j := range w.jobs {
			j.next = 0
		}
		w.at(&c10Ev{at: w.now + 1, tick: nd.starts})
	}
}

// load reads parameters and keys; a damaged file is an error, after which they are asked for again.
func (w *c10) load(nd *c10Node) {
	var err error
	get := func(name string, x interface{ UnmarshalBinary([]byte) error }) bool {
		b, ok := nd.disk[name]
		if !ok {
			return false
		}
		if e := x.UnmarshalBinary(append([]byte(nil), b...)); e != nil {
			err = e
		}
		return true
	}
	o := w.lib(func() {
		if get("params", &nd.p); err != nil {
			return
		}
		if w.fast {
			nd.p = w.p
		}
		nd.ecd = ckks.NewEncoder(nd.p)
		if nd.id == 0 {
			var sk [2]*rlwe.SecretKey
			pk := new(rlwe.PublicKey)
			for i := range sk {
				sk[i] = new(rlwe.SecretKey)
				get(fmt.Sprint("sk", i), sk[i])
			}
			get("pk", pk)
			if err != nil {
				return
			}
			e := ckks.NewEncryptor(nd.p, pk)
			nd.encs = []ckks.Encryptor{e, ckks.NewEncryptor(nd.p, sk[0]), e.ShallowCopy(), e.WithKey(sk[0])}
			nd.decs[0] = ckks.NewDecryptor(nd.p, sk[0])
			nd.decs[1] = ckks.NewDecryptor(nd.p, sk[1])
			if w.fast {
				nd.fenc, nd.fdec = fckks.NewEncryptor(w.fp, pk), fckks.NewDecryptor(w.fp, sk[0])
			}
			return
		}
		if w.fast {
			nd.fev = fckks.NewEvaluator(w.fp)
			return
		}
		k := rlwe.EvaluationKey{}
		if rlk := new(rlwe.RelinearizationKey); get("rlk", rlk) {
			k.Rlk = rlk
		}
		if swk := new(rlwe.SwitchingKey); get("swk", swk) {
			nd.swk = swk
		}
		if rtks := new(rlwe.RotationKeySet); get("rtks", rtks) {
			k.Rtks, nd.rtks = rtks, rtks
		}
		if err == nil {
			nd.evs = []ckks.Evaluator{ckks.NewEvaluator(nd.p, k)}
			if w.y.P.Seed&1 == 0 {
				nd.evs = append(nd.evs, ckks.NewEvaluator(nd.p, k))
			}
		}
	})
	if !w.y.Check(o.Panic == "", "panic", "starting node %d: %s (in %s)", nd.id, o.Panic, o.Where) {
		return
	}
	nd.ready = err == nil
	if err != nil {
		if !w.y.Check(nd.id > 0 && len(nd.disk[nd.last]) < len(w.keys[nd.id][nd.last]), "load", "node %d cannot read what was stored: %v", nd.id, err) {
			return
		}
		w.y.St.Probe("damaged file noticed")
	}
}

// pump is the client's loop: what is ready is sent (again).
func (w *c10) pump() {
	nd := w.nodes[0]
	for _, j := range w.jobs {
		if w.y.Viol != nil {
			return
		}
		if j.done || j.next > w.now || !w.ready(j) {
			continue
		}
		if j.spec == nil {
			if j.s.Op == "dec" && j.idx > 0 {
				j.alias, j.done = w.root(j.s.Mod(0, j.idx)), true
				w.decode(nd, w.jobs[j.alias], j.s)
				continue
			}
			j.spec, j.want = w.plan(j)
			if j.spec == nil {
				j.alias, j.done = w.root(j.s.Mod(0, j.idx)), true
				j.want = nil
				w.y.St.Probe("nothing to ask for: " + j.s.Op)
				continue
			}
		}
		if j.spec.op == "enc" {
			w.encrypt(nd, j)
			continue
		}
		w.request(j, nil)
	}
}

func (w *c10) request(j *c10Job, with []int) {
	nw := len(w.nodes) - 1
	m := &c10Msg{from: 0, to: 1 + (j.s.Mod(3, 1<<20)+j.tries)%nw, kind: "job", job: j.idx}
	if j.tries > 2 {
		m.to = 1 // has all keys
	}
	ids := map[int]bool{j.spec.a: true}
	if j.spec.pt == nil && j.spec.b >= 0 {
		ids[j.spec.b] = true
	}
	if j.spec.c >= 0 {
		ids[j.spec.c] = true
	}
	for _, id := range []int{j.spec.a, j.spec.b, j.spec.c} {
		if ids[id] {
			m.ids = append(m.ids, id)
			ids[id] = false
		}
	}
	m.blobs = map[int][]byte{}
	for _, id := range with {
		m.blobs[id] = w.jobs[id].blob
	}
	j.next = w.now + int64(3*w.y.P.Get("lat")+60)
	w.send(m)
}

func (w *c10) deliver(m *c10Msg) {
	nd := w.nodes[m.to]
	if !nd.up {
		w.y.St.Fault("message_to_crashed_node")
		return
	}
	switch m.kind {
	case "job":
		w.serve(nd, m)
	case "need":
		j := w.jobs[m.job]
		if !j.done {
			w.request(j, m.ids)
		}
	case "refused":
		j := w.jobs[m.job]
		if !j.done {
			j.tries++
			j.next = 0
		}
	case "needkeys":
		w.send(&c10Msg{from: 0, to: m.from, kind: "keys", keys: w.keys[m.from]})
	case "keys":
		if nd.ready && (nd.rtks == nil || w.complete(nd)) {
			return
		}
		names := make([]string, 0)
		for k := range m.keys {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			w.write(nd, k, m.keys[k])
		}
		w.load(nd)
	case "done":
		j := w.jobs[m.job]
		if j.done {
			return
		}
		c := new(ckks.Ciphertext)
		var err error
		o := w.lib(func() { err = c.UnmarshalBinary(append([]byte(nil), m.blob...)) })
		if !w.y.Check(o.Panic == "" && err == nil, "delivery", "the result of job %d (%s) does not decode: %s %v", j.idx, j.spec.op, o.Panic, err) {
			return
		}
		j.done, j.blob = true, append([]byte(nil), m.blob...)
		w.y.St.Probe("job: " + j.spec.op)
	}
}

// complete says whether a node has the rotation keys meant for it.
func (w *c10) complete(nd *c10Node) bool {
	return HB(nd.disk["rtks"]) == HB(w.keys[nd.id]["rtks"])
}

func (nd *c10Node) keep(id int, ct *ckks.Ciphertext) {
	nd.cache[id] = ct
	nd.order = append(nd.order, id)
	if len(nd.order) > 7 {
		old := nd.order[0]
		nd.order = nd.order[1:]
		for _, x := range nd.order {
			if x == old {
				return
			}
		}
		if c := nd.cache[old]; c != nil {
			delete(nd.cache, old)
			for _, x := range nd.using {
				if x == c {
					return // about to be worked on
				}
			}
			nd.spare = append(nd.spare, c)
			if len(nd.spare) > 6 {
				nd.spare = nd.spare[1:]
			}
		}
	}
}

// input finds a ciphertext in memory or on disk.
func (w *c10) input(nd *c10Node, id int) *ckks.Ciphertext {
	if c := nd.cache[id]; c != nil {
		return c
	}
	b, ok := nd.disk[fmt.Sprint("ct", id)]
	if !ok {
		return nil
	}
	c := new(ckks.Ciphertext)
	if len(nd.spare) > 2 && core.H(uint64(nd.used), 3)&1 == 0 {
		c = nd.spare[0]
		nd.spare = nd.spare[1:]
	}
	var err error
	o := w.lib(func() { err = c.UnmarshalBinary(append([]byte(nil), b...)) })
	if !w.y.Check(o.Panic == "", "panic", "reading a stored ciphertext: %s (in %s)", o.Panic, o.Where) {
		return nil
	}
	if err != nil {
		if w.y.Check(HB(b) != HB(w.jobs[id].blob), "load", "a stored ciphertext %d (%d bytes, %d) cannot be read: %v", id, len(b), len(w.jobs[id].blob), err) {
			w.y.St.Probe("damaged file noticed")
		}
		delete(nd.disk, fmt.Sprint("ct", id))
		return nil
	}
	nd.keep(id, c)
	return c
}

func (w *c10) serve(nd *c10Node, m *c10Msg) {
	if !nd.ready {
		w.send(&c10Msg{from: nd.id, to: 0, kind: "needkeys"})
		return
	}
	ids := make([]int, 0)
	for id := range m.blobs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if nd.disk[fmt.Sprint("ct", id)] == nil {
			w.write(nd, fmt.Sprint("ct", id), m.blobs[id])
		}
	}
	j := w.jobs[m.job]
	if b, ok := nd.disk[fmt.Sprint("ct", m.job)]; ok && j.execs > 0 && core.H(w.y.P.Seed, uint64(w.nev))&1 == 0 {
		// the answer got lost: it is still there
		if HB(b) == j.dig {
			w.send(&c10Msg{from: nd.id, to: 0, kind: "done", job: m.job, blob: b})
			return
		}
	}
	in := map[int]*ckks.Ciphertext{}
	nd.using = in
	defer func() { nd.using = nil }()
	var miss []int
	for _, id := range m.ids {
		if in[id] = w.input(nd, id); in[id] == nil {
			miss = append(miss, id)
		}
		if w.y.Viol != nil {
			return
		}
	}
	if miss != nil {
		w.send(&c10Msg{from: nd.id, to: 0, kind: "need", job: m.job, ids: miss})
		return
	}
	w.exec(nd, j, in)
}

func (w *c10) hasKeys(nd *c10Node, sp *c10Spec) bool {
	if w.fast {
		return true
	}
	for _, k := range sp.rots {
		if nd.rtks == nil || nd.rtks.Keys[w.p.GaloisElementForColumnRotationBy(k)] == nil {
			return false
		}
	}
	if sp.conj && (nd.rtks == nil || nd.rtks.Keys[w.p.GaloisElementForRowRotation()] == nil) {
		return false
	}
	return true
}

// operand encodes a plaintext operand, or returns nil.
func (w *c10) encode(nd *c10Node, pt *c10Pt, r *core.RNG) *ckks.Plaintext {
	var out *ckks.Plaintext
	if len(nd.pts) > 0 && r.P(0.4) {
		for _, x := range nd.pts {
			if x.Level() == pt.lvl {
				out = x
				out.Scale = pt.scale
			}
		}
	}
	switch {
	case pt.big:
		if nd.big == nil {
			nd.big = ckks.NewEncoderBigComplex(nd.p, 80)
		}
		v := make([]*ring.Complex, 0)
		for _, x := range pt.vals.([]complex128) {
			v = append(v, ring.NewComplex(ring.NewFloat(real(x), 80), ring.NewFloat(imag(x), 80)))
		}
		if out == nil {
			out = nd.big.EncodeNew(v, pt.lvl, pt.scale, pt.ls)
		} else {
			nd.big.Encode(v, out, pt.ls)
		}
	case pt.coeffs != nil:
		if out == nil {
			out = nd.ecd.EncodeCoeffsNew(pt.coeffs, pt.lvl, pt.scale)
		} else {
			nd.ecd.EncodeCoeffs(pt.coeffs, out)
		}
	case out == nil:
		if r.P(0.5) {
			out = nd.ecd.EncodeNew(pt.vals, pt.lvl, pt.scale, pt.ls)
		} else {
			out = nd.ecd.EncodeSlotsNew(pt.vals, pt.lvl, pt.scale, pt.ls)
		}
	default:
		nd.ecd.Encode(pt.vals, out, pt.ls)
	}
	return out
}

func (nd *c10Node) keepPt(x *ckks.Plaintext) {
	for _, z := range nd.pts {
		if z == x {
			return
		}
	}
	if nd.pts = append(nd.pts, x); len(nd.pts) > 4 {
		nd.pts = nd.pts[1:]
	}
}

// exec carries a job out on a worker.
func (w *c10) exec(nd *c10Node, j *c10Job, in map[int]*ckks.Ciphertext) {
	y, sp := w.y, j.spec
	r := core.NewRNG(core.H(uint64(j.s.Arg(3)), uint64(nd.id), uint64(j.execs), uint64(nd.used), 7))
	can := w.hasKeys(nd, sp)
	a := in[sp.a]
	bs := in[sp.b]
	call := sp.call
	call.op = strippedOp(sp.op)
	if !can {
		call.nmd = 0
	}
	how := "new"
	lvl, deg := j.want.lvl, j.want.deg
	taken := -1 // an input that is given up as receiver
	inPlace := func(id int) {
		call.out, how, taken = in[id], "in place", id
	}
	if call.op == "mulrelin" && w.fast {
		deg = 2
	}
	wantLvl := lvl // level of the call's result, before a later rescaling
	if len(sp.op) > len(call.op) {
		wantLvl = min(a.Level(), bs.Level())
	}
	// the receiver
	fresh := func(d, l int) *ckks.Ciphertext {
		for i, x := range nd.spare {
			if x.Degree() == d && x.Level() >= l && (x.Level() == l || call.op != "rescale") && r.P(0.7) {
				nd.spare = append(nd.spare[:i], nd.spare[i+1:]...)
				how = "reused"
				return x
			}
		}
		how = "empty"
		if call.op == "rescale" {
			return ckks.NewCiphertext(nd.p, d, l, 1)
		}
		return ckks.NewCiphertext(nd.p, d, l+r.N(w.p.MaxLevel()-l+1), 1)
	}
	if call.op == "rescale" {
		wantLvl = a.Level()
	}
	var outs []*ckks.Ciphertext
	o := w.t.Step(j.s.ID, func() {
		var ev ckks.Evaluator
		if w.fast {
			ev = nd.fev.Evaluator
		} else {
			ev = nd.evs[r.N(len(nd.evs))]
		}
		call.a = a
		if sp.pt != nil {
			pt := w.encode(nd, sp.pt, r)
			nd.keepPt(pt)
			call.b = pt
			if sp.swap {
				call.a, call.b = call.b, call.a
			}
		} else if bs != nil {
			call.b = bs
		}
		switch call.op {
		case "mulconstadd", "mulgaussadd":
			// a is added to, b multiplied
			call.a = bs
			if r.P(0.4) && sp.a != sp.b {
				inPlace(sp.a)
			} else {
				call.out, how = a.CopyNew(), "copied"
			}
		case "mulandadd", "mulrelinandadd":
			if r.P(0.4) && sp.c != sp.a && sp.c != sp.b {
				inPlace(sp.c)
			} else {
				call.out, how = in[sp.c].CopyNew(), "copied"
			}
		case "setscale", "match", "droplevel":
			if call.op == "droplevel" && r.P(0.5) {
				break
			}
			if r.P(0.3) && sp.a != sp.b {
				inPlace(sp.a)
			} else {
				call.out, how = a.CopyNew(), "copied"
			}
			if call.op == "match" {
				ev.SetScale(call.out, call.f)
				if r.P(0.5) {
					outs = append(outs, ev.AddNew(call.out, bs))
				} else {
					x := ckks.NewCiphertext(nd.p, deg, lvl, 1)
					ev.Add(bs, call.out, x)
					outs = append(outs, x)
				}
				return
			}
		case "hoist":
			for range call.ks {
				call.outs = append(call.outs, ckks.NewCiphertext(nd.p, 1, a.Level(), 1))
			}
			if !call.has(ev) {
				// one by one
				call.op = "rotate"
			}
		case "rotsum":
			acc := a
			for i, k := range sp.rots {
				var x *ckks.Ciphertext
				switch {
				case w.fast:
					x = nd.fev.RotateNew(acc, w.frtk[k])
				default:
					x = ev.RotateNew(acc, k)
				}
				if i == 0 || r.P(0.5) {
					acc = ev.AddNew(acc, x)
				} else {
					ev.Add(acc, x, acc)
				}
			}
			outs = append(outs, acc)
			return
		default:
			k := r.N(6)
			if needsOut(call.op) {
				k = 2 + r.N(4)
			}
			switch {
			case k < 2:
			case k == 2 && a.Degree() == deg && a.Level() >= wantLvl && call.op != "mul":
				inPlace(sp.a)
			case k == 2 && call.op == "relin":
				inPlace(sp.a)
			case k == 3 && bs != nil && sp.pt == nil && bs.Degree() == deg && call.op != "mul" && twoCts(call.op):
				inPlace(sp.b)
			default:
				call.out = fresh(deg, wantLvl)
			}
		}
		var out *ckks.Ciphertext
		var err error
		if w.fast && (call.op == "mulrelin" || call.op == "rotate") {
			out = call.out
			switch call.op {
			case "mulrelin":
				if out == nil || taken >= 0 {
					taken, how = -1, "new"
					out = nd.fev.MulRelinNew(a, bs, w.frlk)
				} else {
					nd.fev.MulRelin(a, bs, w.frlk, out)
				}
			case "rotate":
				if out == nil {
					out = nd.fev.RotateNew(a, w.frtk[call.k])
				} else {
					nd.fev.Rotate(a, w.frtk[call.k], out)
				}
			}
		} else {
			if call.op == "switchkeys" {
				call.swk = nd.swk
			}
			if call.out == nil && call.op == "rescale" && !call.has(ev) {
				call.out, how = ckks.NewCiphertext(nd.p, deg, a.Level(), 1), "empty"
			}
			if !call.has(ev) {
				run.Fail("no %s", call.op)
			}
			out, err = call.run(ev)
		}
		if err != nil {
			panic(err)
		}
		if call.op == "hoist" {
			outs = append(outs, call.outs...)
			return
		}
		if len(sp.op) > len(call.op) && sp.op == call.op+"+rescale" {
			if r.P(0.5) {
				if err := ev.Rescale(out, sp.call.f, out); err != nil {
					panic(err)
				}
			} else {
				x := ckks.NewCiphertext(nd.p, out.Degree(), out.Level(), 1)
				if err := ev.Rescale(out, sp.call.f, x); err != nil {
					panic(err)
				}
				out = x
			}
		}
		outs = append(outs, out)
	})
	nd.used++
	j.execs++
	if taken >= 0 {
		// its memory was the receiver's
		delete(nd.cache, taken)
	}
	what := fmt.Sprintf("job %d: %s (level %d, degree %d) into %s receiver on worker %d (start %d, %d calls before)", j.idx, sp.op, lvl, j.want.deg, how, nd.id, nd.starts, nd.used-1)
	if o.Panic != "" {
		if !can && !o.IsRuntime() {
			y.St.Fault("refused_for_missing_key")
			if !w.complete(nd) {
				w.send(&c10Msg{from: nd.id, to: 0, kind: "needkeys"})
			}
			w.send(&c10Msg{from: nd.id, to: 0, kind: "refused", job: j.idx})
			return
		}
		y.V("panic", "%s: %s (in %s)", what, o.Panic, o.Where)
		return
	}
	if !y.Check(can, "keys", "%s succeeded without the key it needs", what) {
		return
	}
	out := outs[0]
	if !w.check(what, j, out) {
		return
	}
	if call.op == "hoist" {
		for i, x := range outs[1:] {
			v := *j.want
			v.v = rotC(w.jobs[sp.a].want.v, call.ks[i+1])
			w.content(fmt.Sprintf("%s, rotation %d by %d", what, i+1, call.ks[i+1]), &v, x)
		}
	}
	var blob []byte
	var err error
	o = w.lib(func() { blob, err = out.MarshalBinary() })
	if !y.Check(o.Panic == "" && err == nil, "marshal", "%s: the result does not encode: %s %v", what, o.Panic, err) {
		return
	}
	h := HB(blob)
	if j.dig == 0 {
		j.dig = h
	} else {
		y.Check(j.dig == h, "divergent", "%s: another execution of the same job had another result", what)
	}
	y.St.StateS("%s %s %d %d %d %d", sp.op, how, lvl, deg, w.cf, j.want.ls)
	w.write(nd, fmt.Sprint("ct", j.idx), blob)
	nd.keep(j.idx, out)
	w.send(&c10Msg{from: nd.id, to: 0, kind: "done", job: j.idx, blob: blob})
}

func twoCts(op string) bool {
	switch op {
	case "add", "sub", "addnomod", "subnomod", "mulrelin":
		return true
	}
	return false
}

func strippedOp(s string) string {
	for i := range s {
		if s[i] == '+' {
			return s[:i]
		}
	}
	return s
}

// check compares a result with what the job was to compute.
func (w *c10) check(what string, j *c10Job, out *ckks.Ciphertext) bool {
	y, want := w.y, j.want
	if j.spec.anyScl && j.execs == 1 {
		f := out.Scale / w.jobs[j.spec.a].want.scale
		if !y.Check(f > 1<<25 && f < math.Ldexp(1, 63), "scale", "%s has scale %v", what, out.Scale) {
			return false
		}
		want.scale = out.Scale
		if !w.fits(want.max()+want.err, want.scale, want.lvl) {
			run.Fail("scale of a product with a constant: %v", f)
		}
	}
	if !y.Check(out.Degree() == want.deg && out.Level() == want.lvl, "shape", "%s has degree %d and level %d", what, out.Degree(), out.Level()) {
		return false
	}
	if !y.Check(relErr(out.Scale, want.scale) < 1e-9, "scale", "%s has scale %v, not %v", what, out.Scale, want.scale) {
		return false
	}
	return w.content(what, want, out)
}

func (w *c10) content(what string, want *c10Val, out *ckks.Ciphertext) bool {
	got := readSlots(w.m, w.p.RingQ(), out, w.s[want.sec])
	return w.close(what, got, want.v, want.err, want.lvl)
}

func (w *c10) close(what string, got, want []complex128, err float64, lvl int) bool {
	worst, at := 0.0, 0
	for k := range want {
		if d := cmplx.Abs(got[k] - want[k]); d > worst || math.IsNaN(d) {
			worst, at = d, k
			if math.IsNaN(d) {
				worst = math.Inf(1)
			}
		}
	}
	return w.y.Check(worst <= err, "content", "%s: slot %d is %v instead of %v (off by %.3g, bound %.3g)", what, at, got[at], want[at], worst, err)
}

// encrypt is the client's own work.
func (w *c10) encrypt(nd *c10Node, j *c10Job) {
	y, pt := w.y, j.spec.pt
	r := core.NewRNG(core.H(uint64(j.s.Arg(3)), uint64(nd.starts), 9))
	var ct *ckks.Ciphertext
	var blob []byte
	var err error
	how := ""
	o := w.t.Step(j.s.ID, func() {
		if v, ok := pt.vals.([]complex128); ok && w.fast && !pt.big && pt.ls == w.p.LogSlots() && pt.lvl == w.p.MaxLevel() && pt.scale == w.p.DefaultScale() && r.P(0.7) {
			how = "message"
			ct = nd.fenc.EncryptMsgNew(&fckks.Message{Value: v})
		} else {
			x := w.encode(nd, pt, r)
			nd.keepPt(x)
			k := r.N(len(nd.encs))
			e := nd.encs[k]
			how = fmt.Sprint("encryptor ", k)
			if r.P(0.5) {
				ct = e.EncryptNew(x)
			} else {
				ct = ckks.NewCiphertext(nd.p, 1, pt.lvl, 1)
				e.Encrypt(x, ct)
			}
		}
		blob, err = ct.MarshalBinary()
	})
	what := fmt.Sprintf("job %d: encryption (%s) of %d slots, level %d, scale %v, big %v, coefficients %v", j.idx, how, 1<<uint(pt.ls), pt.lvl, pt.scale, pt.big, pt.coeffs != nil)
	if !y.Check(o.Panic == "" && err == nil, "panic", "%s: %s %v (in %s)", what, o.Panic, err, o.Where) {
		return
	}
	j.execs++
	if !w.check(what, j, ct) {
		return
	}
	j.blob, j.done = blob, true
	y.St.Probe("job: enc")
	y.St.StateS("enc %s %d %d %d", how, pt.lvl, pt.ls, w.cf)
}

// decode is what the client does with a result: decrypt and decode it, in one of several ways.
func (w *c10) decode(nd *c10Node, j *c10Job, s *run.Step) {
	y, x := w.y, j.want
	r := core.NewRNG(core.H(uint64(s.Arg(3)), uint64(j.idx), 11))
	var slots []complex128
	var coeffs []float64
	ls := x.ls
	if r.P(0.3) {
		ls = w.p.MaxLogSlots()
	}
	sigma := 0.0
	if r.P(0.2) {
		sigma = 1 + 20*r.F()
	}
	how := ""
	var pt *ckks.Plaintext
	o := w.t.Step(s.ID, func() {
		c := new(ckks.Ciphertext)
		if err := c.UnmarshalBinary(append([]byte(nil), j.blob...)); err != nil {
			panic(err)
		}
		if w.fast && x.sec == 0 && x.ls <= w.p.LogSlots() && r.P(0.4) {
			how, ls, sigma = "message", w.p.LogSlots(), 0
			m := fckks.NewMessage(w.fp)
			nd.fdec.DecryptToMsg(c, m)
			slots = m.Value
			return
		}
		d := nd.decs[x.sec]
		if r.P(0.5) {
			pt = d.DecryptNew(c)
		} else {
			pt = ckks.NewPlaintext(nd.p, c.Level()+r.N(w.p.MaxLevel()-c.Level()+1), 1)
			pt.Value.IsNTT = r.P(0.6)
			how = fmt.Sprintf("receiver of level %d, NTT %v, ", pt.Level(), pt.Value.IsNTT)
			d.Decrypt(c, pt)
		}
		switch k := r.N(8); {
		case k == 0:
			how += "coefficients"
			if sigma == 0 {
				coeffs = nd.ecd.DecodeCoeffs(pt)
			} else {
				coeffs = nd.ecd.DecodeCoeffsPublic(pt, sigma)
			}
		case k == 1 && w.cf == 1 && w.p.LogN() <= 5:
			how += "big slots"
			if nd.big == nil {
				nd.big = ckks.NewEncoderBigComplex(nd.p, 80)
			}
			for _, z := range nd.big.DecodePublic(pt, ls, sigma) {
				slots = append(slots, z.Float64())
			}
		default:
			how += "slots"
			switch {
			case sigma != 0:
				slots = nd.ecd.DecodePublic(pt, ls, sigma)
			case r.P(0.5):
				slots = nd.ecd.Decode(pt, ls)
			default:
				slots = nd.ecd.DecodeSlots(pt, ls)
			}
		}
	})
	what := fmt.Sprintf("decoding job %d (%s, level %d, degree %d, scale %v) to 2^%d slots, %s, flooding %.3g", j.idx, j.spec.op, x.lvl, x.deg, x.scale, ls, how, sigma)
	if !y.Check(o.Panic == "", "panic", "%s: %s (in %s)", what, o.Panic, o.Where) {
		return
	}
	err := x.err + math.Ldexp(x.max()+1, -40) + w.G*2.6*sigma/x.scale
	if coeffs != nil {
		c := w.m.coeffs(x.v)
		worst, at := 0.0, 0
		for i := range c {
			if d := math.Abs(c[i] - coeffs[i]); !(d <= worst) {
				worst, at = d, i
			}
		}
		y.Check(worst <= err, "decoded", "%s: coefficient %d is %v instead of %v (bound %.3g)", what, at, coeffs[at], c[at], err)
	} else {
		if !y.Check(len(slots) == 1<<uint(ls), "decoded", "%s: %d slots", what, len(slots)) {
			return
		}
		worst, at := 0.0, 0
		for i := range slots {
			if d := cmplx.Abs(x.v[i] - slots[i]); !(d <= worst) {
				worst, at = d, i
			}
		}
		y.Check(worst <= err, "decoded", "%s: slot %d is %v instead of %v (bound %.3g)", what, at, slots[at], x.v[at], err)
	}
	y.St.StateS("dec %s %d %d", how, x.lvl, ls)
	y.St.Probe("decoded")
}

// finish decodes what nobody used.
func (w *c10) finish() {
	used := map[int]bool{}
	for _, j := range w.jobs {
		if j.spec != nil && j.alias < 0 {
			for _, i := range []int{j.spec.a, j.spec.b, j.spec.c} {
				used[i] = true
			}
		}
	}
	n := 0
	for i := len(w.jobs) - 1; i >= 0 && n < 4 && w.y.Viol == nil; i-- {
		if j := w.jobs[i]; j.alias < 0 && !used[i] {
			n++
			w.decode(w.nodes[0], j, j.s)
		}
	}
}
