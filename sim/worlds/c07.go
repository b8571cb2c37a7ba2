package worlds

import (
	"bytes"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"

	"golang.org/x/crypto/blake2b"

	"vsim/core"
	"vsim/lab"
	"vsim/run"
	"vsim/sched"
)

// The parties of a protocol share seeds and derive common randomness from them. A coordinator announces rounds (a clock
// and a length); announcements are lost, duplicated, delayed and reordered; parties crash and come back with the seed
// only. The oracle is the stream of the extendable-output function itself, addressed by position.

func init() {
	run.Register(&run.Prop{
		ID: "C07", Quick: 5000, Thorough: 120000,
		Worlds: []*run.World{
			{Kind: "rounds", Weight: 3, Gen: genRounds, Exec: execRounds},
			{Kind: "crp", Weight: 2, Gen: genCRP, Exec: execCRP},
		},
		Rule:   "one evaluation is one comparison of a party's block, refusal, clock or public polynomial with the reference stream or with the other parties; distinct are (message-event history per party) states and interleavings",
		Real:   []string{"utils.KeyedPRNG", "ring.UniformSampler", "rlwe.Encryptor.EncryptFromCRP", "golang.org/x/crypto/blake2b"},
		Stub:   []string{"network between the parties (simulated: loss, duplication, delay, reordering, partition)", "process crash (party state dropped except the seed)", "goroutine scheduling (cooperative, seeded)"},
		Assume: []string{"blake2b's XOF itself is correct"},
	})
}

// chunk sizes parties agree on
var chunks = []int{1, 2, 3, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 1000, 1024, 4096, 70000}

func genRounds(p *run.Plan, r *core.RNG, thorough bool) {
	np := 2 + r.N(4)
	p.Set("parties", np)
	p.Set("chunk", chunks[r.N(len(chunks))])
	p.Set("keylen", []int{0, 1, 16, 32, 63, 64}[r.N(6)])
	p.Set("keys", 1+r.N(3))
	rounds := 6 + r.N(10)
	if thorough {
		rounds += r.N(20)
	}
	type ev struct {
		at, party int
		op        string
		a, b      int64
	}
	var evs []ev
	clock := int64(0)
	// some protocols run for long: one jump, beyond any counter of sixteen bits where the blocks are small
	far, jump := -1, int64(0)
	if r.P(0.08) {
		far = r.N(rounds)
		jump = int64(1) << uint(8+r.N(10))
		jump += int64(r.N(int(jump)))
		if lim := int64(1<<21) / int64(p.Get("chunk")); jump > lim {
			jump = lim
		}
	}
	for k := 0; k < rounds; k++ {
		if k == far {
			clock += jump
		}
		switch r.N(6) {
		case 0:
			clock += int64(r.N(200))
		case 1:
			clock += int64(r.N(4))
		default:
			clock++
		}
		for q := 0; q < np; q++ {
			if r.P(0.15) { // lost
				p.P["lost"]++
				continue
			}
			d := 1 + r.N(3)
			if r.P(0.2) {
				d += r.N(40) // delayed, hence reordered
			}
			evs = append(evs, ev{k*5 + d, q, "round", clock, 0})
			if r.P(0.12) { // duplicated
				evs = append(evs, ev{k*5 + d + r.N(30), q, "round", clock, 1})
			}
			if r.P(0.07) {
				evs = append(evs, ev{k*5 + r.N(10), q, "crash", 0, 0})
			}
			if r.P(0.1) {
				evs = append(evs, ev{k*5 + r.N(10), q, "back", int64(r.N(1 << 16)), 0})
			}
			if r.P(0.1) {
				evs = append(evs, ev{k*5 + r.N(10), q, "tick", int64(1 + r.N(4)), 0})
			}
			if r.P(0.04) {
				evs = append(evs, ev{k*5 + r.N(10), q, "scribble", 0, 0})
			}
		}
	}
	// stable order by time
	for t := 0; t < rounds*5+60; t++ {
		for _, e := range evs {
			if e.at == t {
				p.Add(e.party, e.op, e.a, e.b)
			}
		}
	}
	p.Sched, p.Mean = r.U64(), 0.5
}

type refXOF struct {
	x   blake2b.XOF
	buf []byte
}

func (f *refXOF) at(off, n int) []byte {
	for len(f.buf) < off+n {
		b := make([]byte, 1<<12+off+n-len(f.buf))
		if _, err := f.x.Read(b); err != nil {
			run.Fail("reference xof: %v", err)
		}
		f.buf = append(f.buf, b...)
	}
	return f.buf[off : off+n]
}

func newRef(key []byte) *refXOF {
	x, err := blake2b.NewXOF(blake2b.OutputLengthUnknown, key)
	if err != nil {
		run.Fail("reference xof: %v", err)
	}
	return &refXOF{x: x}
}

func keyOf(p *run.Plan, k int) []byte {
	n := p.Get("keylen")
	key := make([]byte, n)
	core.NewRNG(p.Seed ^ 0x77).Fill(key)
	if n > 0 { // the keys differ in one bit
		key[(k*7)%n] ^= byte(k)
	}
	return key
}

func execRounds(p *run.Plan, st *run.Stats) *run.Violation {
	y := &Sys{P: p, St: st}
	np := p.Get("parties")
	chunk := max(p.Get("chunk"), 1)
	nk := max(p.Get("keys"), 1)
	refs := make([]*refXOF, nk)
	for k := range refs {
		refs[k] = newRef(keyOf(p, k))
	}
	if nk > 1 && p.Get("keylen") > 0 {
		y.Check(!bytes.Equal(refs[0].at(0, 64), refs[1].at(0, 64)), "reference", "")
	}
	st.Faults["announcement_lost"] += p.P["lost"]

	exec := func(pre []sched.Preempt, record bool) {
		type party struct {
			g     *utils.KeyedPRNG
			key   []byte
			clock int
			buf   []byte
		}
		ps := make([]*party, np)
		boot := func(q int) *party {
			a := &party{key: keyOf(p, q%nk), buf: make([]byte, chunk)}
			k := a.key
			if len(k) == 0 && q&1 == 1 {
				k = nil
			}
			g, err := utils.NewKeyedPRNG(k)
			if err != nil {
				y.V("keyed-refused", "NewKeyedPRNG refuses a %d-byte key: %v", len(k), err)
				return nil
			}
			a.g = g
			return a
		}
		y.Tasks(np, pre, record, nil, func(t *sched.Task, s *run.Step) {
			q := s.T
			ref := refs[q%nk]
			o := t.Step(s.ID, func() {
				if ps[q] == nil {
					ps[q] = boot(q)
				}
				a := ps[q]
				if a == nil {
					return
				}
				switch s.Op {
				case "crash":
					st.Fault("party_crash")
					ps[q] = nil
				case "scribble":
					// the caller may reuse its key buffer
					for i := range a.key {
						a.key[i] ^= 0x5a
					}
				case "tick":
					for k := 0; k < int(s.Arg(0)); k++ {
						a.g.Clock(a.buf)
						t.Pause(func() {
							y.Check(bytes.Equal(a.buf, ref.at(a.clock*chunk, chunk)), "stream", "party %d: block %d is not the stream's", q, a.clock)
						})
						a.clock++
					}
				case "back":
					if a.clock == 0 {
						break
					}
					tgt := uint64(s.Arg(0)) % uint64(a.clock)
					err := a.g.SetClock(a.buf, tgt)
					y.Check(err != nil, "back-accepted", "party %d: seek from clock %d back to %d was not refused", q, a.clock, tgt)
					y.Check(a.g.GetClock() == uint64(a.clock), "back-moved", "party %d: refused seek moved the clock to %d from %d", q, a.g.GetClock(), a.clock)
				case "round":
					tgt := int(s.Arg(0))
					if s.Arg(1) == 1 {
						st.Fault("announcement_duplicated")
					}
					if tgt < a.clock {
						st.Fault("announcement_late")
						err := a.g.SetClock(a.buf, uint64(tgt))
						y.Check(err != nil, "back-accepted", "party %d: seek from clock %d back to %d was not refused", q, a.clock, tgt)
						break
					}
					if tgt > a.clock+1 {
						st.Probe("resynchronised")
					}
					err := a.g.SetClock(a.buf, uint64(tgt))
					y.Check(err == nil, "forward-refused", "party %d: seek from clock %d to %d refused: %v", q, a.clock, tgt, err)
					a.clock = tgt
					y.Check(a.g.GetClock() == uint64(tgt), "clock", "party %d: clock %d after seeking to %d", q, a.g.GetClock(), tgt)
					a.g.Clock(a.buf)
					t.Pause(func() {
						y.Check(bytes.Equal(a.buf, ref.at(a.clock*chunk, chunk)), "stream", "party %d: block at clock %d is not the stream's", q, a.clock)
						st.Log(HB(a.buf[:min(len(a.buf), 64)]))
					})
					a.clock++
				}
				if ps[q] != nil {
					y.Check(a.g.GetClock() == uint64(a.clock), "clock", "party %d: clock %d, expected %d", q, a.g.GetClock(), a.clock)
					st.State(uint64(chunk), uint64(q%nk), uint64(a.clock), core.HS(s.Op))
				}
			})
			if o.Panic != "" {
				y.V("panic", "party %d, %s: %s (in %s)", q, s.Op, o.Panic, o.Where)
			}
		})
	}
	if p.Pre == nil && p.Sched != 0 {
		exec(nil, true)
		if y.Viol != nil {
			return y.Viol
		}
		y.schedule(np)
	}
	exec(p.Pre, false)
	return y.Viol
}

// ---- public polynomials

func genCRP(p *run.Plan, r *core.RNG, thorough bool) {
	s := lab.RandShape(r, 6, 4, 0, 2)
	if r.P(0.015) {
		s.Wide(r, 12)
	}
	s.Put(p)
	np := 2 + r.N(3)
	p.Set("parties", np)
	p.Set("keylen", []int{0, 16, 64}[r.N(3)])
	n := 4 + r.N(6)
	for k := 0; k < n; k++ {
		lvl := int64(r.N(s.NQ))
		nd := int64(r.W(6, 2, 1))
		sub := int64(0)
		if r.P(0.25) {
			sub = 1
		}
		for _, q := range r.Perm(np) {
			p.Add(q, "draw", int64(k), lvl, int64(r.N(8)), sub, nd)
			if r.P(0.1) {
				p.Add(q, "crash")
			}
			if r.P(0.2) {
				p.Add(q, "noise", int64(r.N(5)))
			}
		}
	}
	p.Sched, p.Mean = r.U64(), 1
}

func execCRP(p *run.Plan, st *run.Stats) *run.Violation {
	y := &Sys{P: p, St: st}
	np := p.Get("parties")
	shape := lab.GetShape(p)
	var params rlwe.Parameters
	var cparams ckks.Parameters
	var sk []*rlwe.SecretKey
	var ring1 *ring.Ring
	setup := func() {
		sk = nil
		params = shape.RLWE()
		cparams = shape.CKKS(0, 2)
		var err error
		if ring1, err = ring.NewRing(params.N(), []uint64{params.Q()[len(params.Q())-1]}); err != nil {
			panic(err)
		}
		kg := rlwe.NewKeyGenerator(params)
		for k := 0; k < np; k++ {
			sk = append(sk, kg.GenSecretKey())
		}
	}
	if !y.Setup(-1, setup) {
		return y.Viol
	}
	type rec struct {
		lvl  int
		poly []*ring.Poly
		who  int
	}
	exec := func(pre []sched.Preempt, record bool) {
		shared := map[uint64]*rec{}
		type party struct {
			g    *utils.KeyedPRNG
			us   *ring.UniformSampler
			us1  *ring.UniformSampler
			enc  rlwe.Encryptor
			hist uint64 // what was drawn so far
		}
		ps := make([]*party, np)
		y.Tasks(np, pre, record, nil, func(t *sched.Task, s *run.Step) {
			q := s.T
			o := t.Step(s.ID, func() {
				draw1 := func(a *party, lvl, how int, sub bool) *ring.Poly {
					// samplers are views of the generator: whether a party keeps one or makes one for the occasion,
					// and whether the generator also feeds another ring, makes no difference
					rq, us := params.RingQ(), a.us
					if sub {
						rq, us, lvl = ring1, a.us1, 0
					}
					if how >= 3 {
						us = ring.NewUniformSampler(a.g, rq)
					}
					a.hist = core.H(a.hist, uint64(lvl))
					if sub {
						a.hist = core.Mix(a.hist)
					}
					switch how % 3 {
					case 0:
						return us.ReadLvlNew(lvl)
					case 1:
						pol := rq.NewPoly()
						us.ReadLvl(lvl, pol)
						pol.Coeffs = pol.Coeffs[:lvl+1]
						return pol
					default:
						pol := rq.NewPolyLvl(lvl)
						us.Read(pol)
						return pol
					}
				}
				// a public ciphertext of degree d is d+1 polynomials
				draw := func(a *party, lvl, how int, sub bool, nd int) (l []*ring.Poly) {
					if how >= 6 && !sub {
						for k := 0; k < nd; k++ {
							a.hist = core.H(a.hist, uint64(lvl))
						}
						if how == 6 {
							return rlwe.NewCiphertextRandom(a.g, params, nd-1, lvl).Value
						}
						return ckks.NewCiphertextRandom(a.g, cparams, nd-1, lvl, 2).Value
					}
					for k := 0; k < nd; k++ {
						l = append(l, draw1(a, lvl, how, sub))
					}
					return
				}
				if ps[q] == nil {
					g, err := utils.NewKeyedPRNG(keyOf(p, 0))
					if err != nil {
						y.V("keyed-refused", "%v", err)
						return
					}
					ps[q] = &party{g: g, us: ring.NewUniformSampler(g, params.RingQ()), us1: ring.NewUniformSampler(g, ring1), enc: rlwe.NewEncryptor(params, sk[q]), hist: 1}
					// a party that restarts replays the draws it has missed
					for i := range y.P.Steps {
						z := &y.P.Steps[i]
						if z.ID >= s.ID {
							break
						}
						if z.T == q && z.Op == "draw" {
							draw(ps[q], z.Mod(1, shape.NQ), int(z.Arg(2)), z.Arg(3) == 1, 1+z.Mod(4, 3))
						}
					}
				}
				a := ps[q]
				switch s.Op {
				case "crash":
					st.Fault("party_crash")
					ps[q] = nil
				case "noise":
					// private randomness in between must not disturb the common stream
					switch s.Arg(0) {
					case 0:
						g, _ := utils.NewPRNG()
						g.Clock(make([]byte, 100))
					case 1:
						g, _ := utils.NewKeyedPRNG(keyOf(p, 0))
						g.Clock(make([]byte, 100))
					default:
						a.enc.ShallowCopy()
					}
				case "draw":
					lvl := s.Mod(1, shape.NQ)
					sub := s.Arg(3) == 1
					pols := draw(a, lvl, int(s.Arg(2)), sub, 1+s.Mod(4, 3))
					if sub {
						lvl = 0
					}
					k := a.hist
					t.Pause(func() {
						if e := shared[k]; e == nil {
							e = &rec{lvl, nil, q}
							shared[k] = e
							for _, pol := range pols {
								e.poly = append(e.poly, pol.CopyNew())
								y.Check(len(pol.Coeffs) == lvl+1, "range", "public polynomial %d has %d moduli, expected %d", k, len(pol.Coeffs), lvl+1)
								for i := range pol.Coeffs {
									for _, c := range pol.Coeffs[i] {
										q := params.RingQ().Modulus[i]
										if sub {
											q = ring1.Modulus[i]
										}
										y.Check(c < q, "range", "public polynomial %d has a coefficient outside its modulus", k)
									}
								}
							}
						} else {
							y.Check(len(pols) == len(e.poly), "crp-differs", "parties %d and %d derive %d and %d polynomials for draw %d", e.who, q, len(e.poly), len(pols), k)
							for j := 0; j < len(pols) && j < len(e.poly); j++ {
								y.Check(pols[j].Equals(e.poly[j]), "crp-differs", "parties %d and %d derive different public polynomials for draw %d (level %d)", e.who, q, k, lvl)
							}
						}
						st.Log(HU(1, pols[0].Coeffs[0]))
						st.State(uint64(q), k, uint64(lvl), uint64(s.Arg(2)), uint64(np), uint64(len(pols)))
					})
					pol := pols[len(pols)-1]
					if sub {
						break
					}
					// use it as the common reference polynomial of an encryption: the c1 of all parties agree
					ct := rlwe.NewCiphertextNTT(params, 1, lvl)
					pt := rlwe.NewPlaintext(params, lvl)
					pt.Value.IsNTT = true
					a.enc.EncryptFromCRP(pt, pol, ct)
					t.Pause(func() {
						y.Check(len(shared[k].poly) > 0 && ct.Value[1].Equals(shared[k].poly[len(shared[k].poly)-1]), "crp-ciphertext", "party %d: an encryption from the common polynomial does not carry it", q)
					})
				}
			})
			if o.Panic != "" {
				y.V("panic", "party %d, %s: %s (in %s)", q, s.Op, o.Panic, o.Where)
			}
		})
	}
	if p.Pre == nil && p.Sched != 0 {
		exec(nil, true)
		if y.Viol != nil {
			return y.Viol
		}
		y.schedule(np)
		if !y.Setup(-1, setup) {
			return y.Viol
		}
	}
	exec(p.Pre, false)
	return y.Viol
}
