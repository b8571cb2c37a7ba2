package worlds

import (
	"fmt"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"

	"vsim/core"
	"vsim/globals"
	"vsim/lab"
	"vsim/run"
	"vsim/sched"
)

// Users build engines, copy and re-key them, generate keys and encrypt the same things again and again; the system's
// randomness source fails or delivers short at planned requests. Every secret, mask and error is read off the results
// and fingerprinted; no fingerprint may occur twice. The whole history is then run again with only the randomness
// source changed: no fingerprint may survive the change.

func init() {
	run.Register(&run.Prop{
		ID: "C09", Quick: 44000, Thorough: 150000,
		Worlds: []*run.World{
			{Kind: "fresh", Weight: 2, Gen: genFresh(1, false), Exec: execFresh},
			{Kind: "device", Weight: 2, Gen: genFresh(1, true), Exec: execFresh},
			{Kind: "parallel", Weight: 1, Gen: genFresh(3, false), Exec: execFresh},
		},
		Rule:   "one evaluation is one fingerprint of a secret, mask or error checked against all others of the run and of its twin with other randomness, or one call under a failing source checked to yield nothing; distinct are (call kind, fault, parameter shape) states and interleavings",
		Real:   []string{"utils.NewPRNG/KeyedPRNG", "ring samplers", "rlwe, ckks and fckks encryptors and key generators with their copies", "ckks encoder flooding noise", "utils.Rand*", "ring.RandInt"},
		Stub:   []string{"crypto/rand (simulated device: per-call streams, errors, short reads)", "goroutine scheduling (cooperative, seeded)"},
		Assume: []string{"the device's bytes are distinct between calls"},
	})
}

var freshOps = []string{"kg", "enc", "copy", "withkey", "encrypt", "sk", "pk", "rlk", "rot", "swk", "rand", "randint", "ecd", "ecdcopy", "flood", "cenc", "fenc"}

func genFresh(nt int, dev bool) func(p *run.Plan, r *core.RNG, thorough bool) {
	return func(p *run.Plan, r *core.RNG, thorough bool) {
		s := lab.RandShape(r, 6, 3, 0, 2)
		s.LogN = 5 + r.N(2)
		if r.P(0.015) {
			s.Wide(r, 10)
		}
		s.Sigma, s.H = 0, 0
		s.Put(p)
		p.Set("tasks", nt)
		n := 10 + r.N(14)
		for k := 0; k < n*nt; k++ {
			op := freshOps[r.W(2, 3, 4, 4, 10, 4, 3, 2, 2, 2, 3, 2, 1, 2, 3, 2, 2)]
			p.Add(r.N(nt), op, int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.N(1<<16)))
		}
		if dev {
			for k := 0; k < 2+r.N(6); k++ {
				f := sched.EntFault{Step: r.N(n), At: 0, Short: -1}
				if r.P(0.3) {
					f.At = r.N(3)
				}
				switch r.N(4) {
				case 0:
					f.Short = r.N(70)
				case 1:
					f.Short, f.Sticky = r.N(64), true
				case 2:
					f.Sticky = true
				}
				p.Ent = append(p.Ent, f)
			}
		}
		if r.P(0.5) {
			p.Set("win", 1+r.N(1<<10))
		}
		if nt > 1 {
			p.Sched, p.Mean = r.U64(), 0.3
		}
	}
}

type print struct {
	what string
	step int
}

// fresh is one execution's state.
type fresh struct {
	y      *Sys
	params rlwe.Parameters
	cp     ckks.Parameters
	seen   map[uint64]print
	sk0    *rlwe.SecretKey
	sec0   *lab.Secret
	pk0    *rlwe.PublicKey
	probe  *rlwe.PublicKey // public key that makes masks and errors readable
	kgs    []rlwe.KeyGenerator
	encs   []freshEnc
	ecds   []ckks.Encoder
	kgT    []int // owners: an engine is driven by one task, anyone may copy it
	encT   []int
	ecdT   []int
	secs   map[*rlwe.SecretKey]*lab.Secret
	count  int
	signs  map[bool]*[3]int // places of public-key ciphertexts; first error negative; errors of equal sign
}

type freshEnc struct {
	e  rlwe.Encryptor
	sk *lab.Secret // nil: probing public key
}

// put registers a fingerprint.
func (f *fresh) put(h uint64, what string, step int) {
	f.count++
	f.y.St.Log(h)
	if o, ok := f.seen[h]; ok {
		f.y.Check(false, "repeated", "%s of step %d repeats %s of step %d", what, step, o.what, o.step)
		return
	}
	f.y.St.Evals++
	f.seen[h] = print{what, step}
}

func (f *fresh) ints(v []int64, what string, step int) {
	h := uint64(1)
	nz := false
	for _, x := range v {
		h = core.Mix(h ^ uint64(x))
		nz = nz || x != 0
	}
	if !nz {
		f.y.Check(false, "zero", "%s of step %d is zero", what, step)
		return
	}
	f.put(h, what, step)
}

const probeShift = 12

func (f *fresh) setup() bool {
	y := f.y
	shape := lab.GetShape(y.P)
	return y.Setup(-1, func() {
		f.params = shape.RLWE()
		f.cp = shape.CKKS(shape.LogN-1, float64(uint64(1)<<25))
		kg := rlwe.NewKeyGenerator(f.params)
		f.sk0, f.pk0 = kg.GenKeyPair()
		sched.Pause(func() {
			f.sec0 = lab.ReadSecret(f.params, f.sk0)
			f.secs[f.sk0] = f.sec0
			f.probe = rlwe.NewPublicKey(f.params)
			rq := f.params.RingQ()
			fill := func(v [][]uint64, m []uint64, b, k uint64) {
				for i, q := range m {
					for j := range v[i] {
						v[i][j] = b % q * k % q
					}
				}
			}
			if f.params.PCount() == 0 {
				// pk = (2^probeShift, 0)
				fill(f.probe.Value[0].Q.Coeffs, rq.Modulus, 1, 1<<probeShift)
				return
			}
			// pk = (3P, 3P), P the first special modulus, over which encryption works: the division by P leaves
			// 3u, less one where the error is negative (if P is below 2^53; no errors can be read otherwise)
			for _, v := range f.probe.Value {
				fill(v.Q.Coeffs, rq.Modulus, f.params.P()[0], 3)
			}
		})
	})
}

// digits fingerprints a switching key.
func (f *fresh) digits(swk *rlwe.SwitchingKey, out *lab.Secret, what string, step int) {
	rp := f.params.RingP()
	for i := range swk.Value {
		a, b := swk.Value[i][1], swk.Value[i][0]
		f.put(HU(11, a.Q.Coeffs[0]), fmt.Sprintf("mask %d of a %s", i, what), step)
		f.put(HU(11, a.P.Coeffs[0]), fmt.Sprintf("mask %d (P) of a %s", i, what), step)
		if out == nil {
			continue
		}
		// modulo P the gadget vanishes: b + a s = e
		acc := lab.Evals(rp, b.P.Coeffs, true, true)
		lab.MulAdd(rp, acc, lab.Evals(rp, a.P.Coeffs, true, true), out.P)
		e := lab.Small(lab.Coeffs(rp, acc, true, false)[0], rp.Modulus[0])
		f.ints(e, fmt.Sprintf("error %d of a %s", i, what), step)
	}
}

func (f *fresh) do(t *sched.Task, s *run.Step) {
	y := f.y
	st := y.St
	sim := y.M
	faults0 := int64(0)
	for _, v := range sim.EntFaults {
		faults0 += v
	}
	got0 := sim.EntBytes
	made := ""
	need := int64(0)
	var post []func()
	pick := func(i, n int) int { return s.Mod(i, n) }
	own := func(l []int) int {
		var c []int
		for i, t := range l {
			if t == s.T {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return -1
		}
		return c[pick(0, len(c))]
	}
	kg := func() rlwe.KeyGenerator {
		if k := own(f.kgT); k >= 0 {
			return f.kgs[k]
		}
		return nil
	}
	addEnc := func(e rlwe.Encryptor, sk *lab.Secret) {
		f.encs = append(f.encs, freshEnc{e, sk})
		f.encT = append(f.encT, s.T)
	}
	o := t.Step(s.ID, func() {
		switch s.Op {
		case "kg":
			need = 32
			g := rlwe.NewKeyGenerator(f.params)
			f.kgs, f.kgT = append(f.kgs, g), append(f.kgT, s.T)
			made = "key generator"
		case "enc":
			need = 32
			if pick(0, 2) == 0 {
				addEnc(rlwe.NewEncryptor(f.params, f.probe), nil)
			} else {
				addEnc(rlwe.NewEncryptor(f.params, f.sk0), f.sec0)
			}
			made = "encryptor"
		case "copy":
			if len(f.encs) > 0 {
				e := f.encs[pick(0, len(f.encs))]
				addEnc(e.e.ShallowCopy(), e.sk)
				made = "encryptor copy"
			}
		case "withkey":
			if len(f.encs) > 0 {
				e := f.encs[pick(0, len(f.encs))]
				if pick(1, 2) == 0 {
					addEnc(e.e.WithKey(f.probe), nil)
				} else {
					addEnc(e.e.WithKey(f.sk0), f.sec0)
				}
				made = "re-keyed encryptor"
			}
		case "encrypt", "cenc":
			k := own(f.encT)
			if k < 0 {
				break
			}
			e := f.encs[k]
			lvl := pick(1, f.params.MaxLevel()+1)
			pt := rlwe.NewPlaintext(f.params, lvl)
			pt.Value.IsNTT = pick(2, 2) == 1
			ct := rlwe.NewCiphertext(f.params, 1, lvl)
			ct.Value[0].IsNTT = pick(2, 4) >= 2
			ct.Value[1].IsNTT = ct.Value[0].IsNTT
			if s.Op == "cenc" && e.sk != nil {
				crp := ring.NewUniformSampler(mustPRNG(), f.params.RingQ()).ReadLvlNew(lvl)
				crp.IsNTT = true
				e.e.EncryptFromCRP(pt, crp, ct)
			} else {
				e.e.Encrypt(pt, ct)
			}
			t.Pause(func() { f.readCt(e, ct, s.ID) })
		case "sk":
			if g := kg(); g != nil {
				var sk *rlwe.SecretKey
				switch pick(1, 4) {
				case 0:
					sk = g.GenSecretKey()
				case 1:
					sk = g.GenSecretKeyGaussian()
				case 2:
					need = 32
					sk = g.GenSecretKeyWithDistrib([]float64{0.5, 1. / 3, 0.25}[pick(2, 3)])
				default:
					need = 32
					sk = g.GenSecretKeyWithHammingWeight(f.params.N() / 2)
				}
				made = "secret key"
				t.Pause(func() {
					f.secs[sk] = lab.ReadSecret(f.params, sk)
					f.ints(f.secs[sk].Ints, "secret key", s.ID)
				})
			}
		case "pk":
			if g := kg(); g != nil {
				pk := g.GenPublicKey(f.sk0)
				t.Pause(func() {
					rq := f.params.RingQ()
					f.put(HU(11, pk.Value[1].Q.Coeffs[0]), "mask of a public key", s.ID)
					acc := lab.Evals(rq, pk.Value[0].Q.Coeffs[:1], true, false)
					lab.MulAdd(rq, acc, lab.Evals(rq, pk.Value[1].Q.Coeffs[:1], true, false), f.sec0.Q)
					f.ints(lab.Small(lab.Coeffs(rq, acc, true, false)[0], rq.Modulus[0]), "error of a public key", s.ID)
				})
			}
		case "rlk":
			if g := kg(); g != nil && f.params.PCount() > 0 {
				rlk := g.GenRelinearizationKey(f.sk0, 1+pick(1, 2))
				t.Pause(func() {
					for d := range rlk.Keys {
						f.digits(rlk.Keys[d], f.sec0, fmt.Sprintf("relinearization key (degree %d)", d+2), s.ID)
					}
				})
			}
		case "rot":
			if g := kg(); g != nil && f.params.PCount() > 0 {
				ks := []int{1, -1, 2, 5}[:1+pick(1, 4)]
				set := g.GenRotationKeysForRotations(ks, pick(2, 2) == 1 && f.params.RingType() == ring.Standard, f.sk0)
				t.Pause(func() {
					for _, k := range ks {
						g := f.params.GaloisElementForColumnRotationBy(k)
						if swk := set.Keys[g]; swk != nil {
							f.digits(swk, nil, fmt.Sprintf("rotation key %d", k), s.ID)
						}
					}
				})
			}
		case "swk":
			if g := kg(); g != nil && f.params.PCount() > 0 {
				a := g.GenSwitchingKey(f.sk0, f.sk0)
				b := g.GenSwitchingKey(f.sk0, f.sk0)
				t.Pause(func() {
					f.digits(a, f.sec0, "switching key", s.ID)
					f.digits(b, f.sec0, "switching key (same request again)", s.ID)
				})
			}
		case "rand":
			switch pick(0, 4) {
			case 3:
				need = 32
				g, err := utils.NewPRNG()
				if err != nil {
					return
				}
				deg := 1 + pick(1, 3)
				ct := rlwe.NewCiphertextRandom(g, f.params, deg, pick(1, f.params.MaxLevel()+1))
				made = "random ciphertext"
				for i, v := range ct.Value {
					f.put(HU(11, v.Coeffs[0]), fmt.Sprintf("polynomial %d of a random ciphertext", i), s.ID)
				}
			case 0:
				need = 8
				v := utils.RandUint64()
				made = "random word"
				f.put(core.H(v, 5), "random word", s.ID)
			case 1:
				need = 6
				v := utils.RandFloat64(0, 1)
				made = "random float"
				y.Check(v >= 0 && v <= 1, "range", "RandFloat64(0,1) gives %v", v)
				f.put(core.H(uint64(v*(1<<62)), 6), "random float", s.ID)
			default:
				need = 12
				v := utils.RandComplex128(-1, 1)
				made = "random complex"
				y.Check(real(v) != imag(v), "repeated", "RandComplex128 gives equal parts")
				f.put(core.H(uint64(int64(real(v)*(1<<62))), 7), "random complex", s.ID)
			}
		case "randint":
			need = 16
			m := new(big.Int).Lsh(big.NewInt(1), uint(128+pick(0, 300)))
			m.Sub(m, big.NewInt(int64(1+pick(1, 1000))))
			v := ring.RandInt(m)
			made = "random integer"
			y.Check(v.Sign() >= 0 && v.Cmp(m) < 0, "range", "RandInt out of range")
			f.put(HB(v.Bytes()), "random integer", s.ID)
		case "ecd":
			need = 32
			e := ckks.NewEncoder(f.cp)
			f.ecds, f.ecdT = append(f.ecds, e), append(f.ecdT, s.T)
			made = "encoder"
		case "ecdcopy":
			if len(f.ecds) > 0 {
				e := f.ecds[pick(0, len(f.ecds))].ShallowCopy()
				f.ecds, f.ecdT = append(f.ecds, e), append(f.ecdT, s.T)
				made = "encoder copy"
			}
		case "flood":
			if k := own(f.ecdT); k >= 0 {
				e := f.ecds[k]
				pt := ckks.NewPlaintext(f.cp, pick(1, f.cp.MaxLevel()+1), 1)
				pt.Scale = 1
				sigma := []float64{3.2, 50, 1000}[pick(2, 3)]
				var v []float64
				if k := pick(3, 4); k == 0 && f.cp.RingType() == ring.Standard && f.cp.LogN() <= 6 {
					// the encoder of arbitrary precision
					for _, c := range ckks.NewEncoderBigComplex(f.cp, 80).DecodePublic(pt, f.cp.LogSlots(), sigma) {
						z := c.Float64()
						v = append(v, real(z)*1e6, imag(z)*1e6)
					}
					need = 32
				} else if pick(2, 2) == 0 {
					v = e.DecodeCoeffsPublic(pt, sigma)
				} else {
					for _, c := range e.DecodePublic(pt, f.cp.LogSlots(), sigma) {
						v = append(v, real(c)*1e6, imag(c)*1e6)
					}
				}
				t.Pause(func() {
					w := make([]int64, len(v))
					for i := range v {
						w[i] = int64(v[i] * 64)
					}
					f.ints(w, "flooding noise", s.ID)
				})
			}
		case "fenc":
			// the fast scheme's encryptor, over the same parameters
			need = 32
			e := ckks.NewEncryptor(f.cp, f.probe)
			e2 := e.ShallowCopy()
			made = "ckks encryptor"
			pt := ckks.NewPlaintext(f.cp, f.cp.MaxLevel(), 1)
			c1, c2 := e.EncryptNew(pt), e2.EncryptNew(pt)
			c3 := e.WithKey(f.sk0).EncryptNew(pt)
			t.Pause(func() {
				f.readCt(freshEnc{nil, nil}, c1.Ciphertext, s.ID)
				f.readCt(freshEnc{nil, nil}, c2.Ciphertext, s.ID)
				f.readCt(freshEnc{nil, f.sec0}, c3.Ciphertext, s.ID)
			})
		}
	})
	for _, g := range post {
		g()
	}
	faults := -faults0
	for _, v := range sim.EntFaults {
		faults += v
	}
	got := sim.EntBytes - got0
	if o.Panic != "" {
		if faults == 0 {
			y.V("panic", "%s (step %d): %s (in %s)", s.Op, s.ID, o.Panic, o.Where)
		} else {
			st.Probe("refused:" + s.Op)
			st.Evals++
		}
	} else if made != "" && need > 0 && y.P.Get("tasks") == 1 {
		y.Check(got >= need, "starved", "%s (step %d): a %s was produced from %d bytes of randomness (%d source failures)", s.Op, s.ID, made, got, faults)
	} else if faults > 0 && made != "" && y.P.Get("tasks") == 1 {
		y.Check(got >= 32, "starved", "%s (step %d): a %s was produced from %d bytes of randomness (%d source failures)", s.Op, s.ID, made, got, faults)
	}
	st.StateS("%s %v %d %d %d", s.Op, faults > 0, y.P.Get("np"), s.Arg(1)%4, y.P.Get("ci"))
}

func mustPRNG() utils.PRNG {
	g, err := utils.NewPRNG()
	if err != nil {
		panic(err)
	}
	return g
}

// readCt reads masks and errors off a ciphertext of zero.
func (f *fresh) readCt(e freshEnc, ct *rlwe.Ciphertext, step int) {
	rq := f.params.RingQ()
	q := rq.Modulus[0]
	if e.sk != nil {
		c1 := lab.Evals(rq, ct.Value[1].Coeffs[:1], ct.Value[1].IsNTT, false)
		f.put(HU(11, c1[0]), "mask of a secret-key ciphertext", step)
		ph := lab.Phase(rq, ct.Value, e.sk.Q)
		f.ints(lab.Small(ph[0], q), "error of a secret-key ciphertext", step)
		return
	}
	c0 := lab.Small(lab.Coeffs(rq, ct.Value[0].Coeffs[:1], ct.Value[0].IsNTT, false)[0], q)
	c1 := lab.Small(lab.Coeffs(rq, ct.Value[1].Coeffs[:1], ct.Value[1].IsNTT, false)[0], q)
	if f.params.PCount() > 0 {
		s := f.signs[ct.Value[0].IsNTT]
		if s == nil {
			s = new([3]int)
			f.signs[ct.Value[0].IsNTT] = s
		}
		u := make([]int64, len(c0))
		for i, c := range c0 {
			u[i] = (c+1+3*16)/3 - 16
			s[0]++
			if c%3 != 0 {
				s[1]++
			}
			if c == c1[i] {
				s[2]++
			}
		}
		f.ints(u, "mask of a public-key ciphertext", step)
		if n := s[0]; n >= 96 && s[1] > n/4 && s[1] < n*3/4 {
			// two independent errors agree in sign at about half of the places
			f.y.Check(s[2] < n, "repeated", "both errors of public-key ciphertexts have equal signs at all %d places read (step %d)", s[0], step)
			f.y.St.Evals++
		}
		if len(c0) >= 64 && f.params.P()[0] < 1<<50 {
			// the signs alone tell one error from another
			for k, c := range [2][]int64{c0, c1} {
				e := make([]int64, len(c))
				for i := range c {
					e[i] = 1 + ((c[i]%3)+3)%3/2
				}
				f.ints(e, fmt.Sprintf("error %d of a public-key ciphertext", k), step)
			}
		}
		return
	}
	f.ints(c1, "second error of a public-key ciphertext", step)
	u := make([]int64, len(c0))
	er := make([]int64, len(c0))
	for i, c := range c0 {
		u[i] = (c + 1<<(probeShift-1)) >> probeShift
		er[i] = c - u[i]<<probeShift
	}
	f.ints(u, "mask of a public-key ciphertext", step)
	f.ints(er, "first error of a public-key ciphertext", step)
}

func execFresh(p *run.Plan, st *run.Stats) *run.Violation {
	y := &Sys{P: p, St: st}
	nt := max(p.Get("tasks"), 1)
	one := func(ent uint64, pre []sched.Preempt, record bool) *fresh {
		f := &fresh{y: y, seen: map[uint64]print{}, signs: map[bool]*[3]int{}, secs: map[*rlwe.SecretKey]*lab.Secret{}}
		globals.Reset()
		y.EntSeed = 0
		if !f.setup() {
			return nil
		}
		y.EntSeed = ent
		y.Tasks(nt, pre, record, nil, f.do)
		return f
	}
	if nt > 1 && p.Pre == nil && p.Sched != 0 {
		one(0, nil, true)
		if y.Viol != nil {
			return y.Viol
		}
		y.schedule(nt)
	}
	a := one(0, p.Pre, false)
	if y.Viol != nil {
		return y.Viol
	}
	if w := p.Get("win"); w > 0 {
		y.EntWin = w
		st.Fault("device_differs_in_16_bytes")
	}
	b := one(0x1234567, p.Pre, false)
	if y.Viol != nil {
		return y.Viol
	}
	for h, x := range a.seen {
		if z, ok := b.seen[h]; ok {
			y.Check(false, "predictable", "%s of step %d does not depend on the randomness source (it equals %s of step %d under other randomness)", x.what, x.step, z.what, z.step)
			break
		}
		st.Evals++
	}
	return y.Viol
}
