package worlds

import (
	"encoding/json"
	"fmt"
	"math/big"
	"runtime/metrics"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
	"vsim/run"
	"vsim/sched"
)

// A disk and a network that damage blobs: short reads, lost tails, sectors that never reached the disk, sectors of an
// older file, flipped bits. The reader decodes what it finds and then, with the same receiver, a good copy.

func init() {
	run.Register(&run.Prop{
		ID: "C06", Quick: 50000, Thorough: 2000000,
		Worlds: []*run.World{
			{Kind: "torn", Weight: 1, Gen: genTorn, Exec: execTorn},
		},
		Rule:   "one evaluation is one decoding of a damaged blob (outcome, time and memory bounds, content where it must be right) or of the good blob after it; distinct are (kind, damage, place, receiver state) states",
		Real:   []string{"all UnmarshalBinary, UnmarshalJSON and DecodePolyNew of ring, rlwe and ckks"},
		Stub:   []string{"disk and network (truncation, zero fill, torn sectors, bit flips)", "map iteration order"},
		Assume: []string{"the format has no checksum: a flip inside coefficient data cannot be noticed and need not be", "memory is bounded by 16 MB plus 512 bytes per byte of the blob"},
	})
}

func genTorn(p *run.Plan, r *core.RNG, thorough bool) {
	genParties(p, r)
	p.Set("zero", 0)
	n := 8 + r.N(20)
	for k := 0; k < n; k++ {
		op := "torn"
		if k < 2 || r.P(0.2) {
			op = "make"
		}
		p.Add(0, op, int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.U64()>>2))
	}
}

var heapSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(heapSample)
	return heapSample[0].Value.Uint64()
}

// tornKinds adds the raw stream decoders to the objects.
var tornKinds = append(append([]string{}, objKinds...), "polyqp-raw", "poly-raw", "poly32-raw")

type tornObj struct {
	kind string
	q    *party
	dig  uint64
	blob []byte
	full interface{}
}

func execTorn(p *run.Plan, st *run.Stats) *run.Violation {
	y := &Sys{P: p, St: st}
	ps, ok := twoParties(y)
	if !ok {
		return y.Viol
	}
	var objs []*tornObj
	rec := map[string]interface{}{}
	dec := func(kind string, o interface{}, b []byte) (err error) {
		switch kind {
		case "polyqp-raw":
			_, err = o.(*rlwe.PolyQP).DecodePolyNew(b)
		case "poly-raw":
			_, err = o.(*ring.Poly).DecodePolyNew(b)
		case "poly32-raw":
			_, err = o.(*ring.Poly).DecodePolyNew32(b)
		default:
			err = decode(kind, o, b)
		}
		return
	}
	digest := func(o interface{}) uint64 {
		if v, ok := o.(*rlwe.PolyQP); ok {
			return digQP(5, *v, true)
		}
		return dig(o, true)
	}
	y.Serial(func(t *sched.Task, s *run.Step) {
		r := core.NewRNG(core.H(uint64(s.Arg(3)), p.Seed))
		if s.Op == "make" {
			q := ps[s.Mod(1, 2)]
			kind := tornKinds[s.Mod(0, len(tornKinds))]
			if !q.hasKind(kind) {
				return
			}
			x := &tornObj{kind: kind, q: q}
			var err error
			o := t.Step(s.ID, func() {
				switch kind {
				case "polyqp-raw":
					k := q.make("sk", r).(*rlwe.SecretKey)
					x.full = &k.Value
					x.blob = make([]byte, k.Value.GetDataLen(true))
					_, err = k.Value.WriteTo(x.blob)
				case "poly-raw", "poly32-raw":
					v := q.make("poly", r).(*ring.Poly)
					if kind == "poly-raw" {
						x.blob = make([]byte, v.GetDataLen(true))
						_, err = v.WriteTo(x.blob)
					} else {
						for _, c := range v.Coeffs {
							for j := range c {
								c[j] &= 0xffffffff
							}
						}
						x.blob = make([]byte, v.GetDataLen32(true))
						_, err = v.WriteTo32(x.blob)
					}
					x.full = v
				default:
					x.full = q.make(kind, r)
					x.blob, err = encode(kind, x.full)
				}
			})
			if o.Panic != "" || err != nil {
				st.Probe("make-failed-" + kind)
				return
			}
			x.dig = digest(x.full)
			objs = append(objs, x)
			return
		}
		if len(objs) == 0 {
			return
		}
		x := objs[s.Mod(0, len(objs))]
		b := append([]byte(nil), x.blob...)
		cut := -1
		mode := []string{"cut", "cut", "cut", "zerotail", "oldtail", "zerosector", "flip", "flip", "headflip", "headbyte", "extra"}[s.Mod(1, 11)]
		pos := r.N(len(b))
		if isJSON(x.kind) && r.P(0.4) {
			mode = "textbyte"
		}
		switch {
		case r.P(0.3):
			pos = min(r.N(16), len(b)-1)
		case r.P(0.2):
			pos = max(len(b)-1-r.N(16), 0)
		}
		where := "body"
		if pos < 16 {
			where = fmt.Sprint("byte", pos)
		}
		switch mode {
		case "cut":
			cut = pos
			b = b[:cut:cut]
			st.Fault("disk_short_read")
		case "zerotail":
			for i := pos; i < len(b); i++ {
				b[i] = 0
			}
			st.Fault("disk_zero_fill")
		case "oldtail":
			// the tail of an older file under the same name
			old := objs[r.N(len(objs))].blob
			for i := pos; i < len(b); i++ {
				if i < len(old) {
					b[i] = old[i]
				} else {
					b[i] = 0
				}
			}
			st.Fault("disk_torn_write")
		case "zerosector":
			n := 1 << uint(r.N(10))
			for i := pos; i < len(b) && i < pos+n; i++ {
				b[i] = 0
			}
			st.Fault("disk_lost_sector")
		case "flip":
			for k := r.N(3); k >= 0; k-- {
				b[pos] ^= 1 << uint(r.N(8))
				pos = r.N(len(b))
			}
			st.Fault("bit_flip")
		case "headflip":
			b[min(r.N(24), len(b)-1)] ^= 1 << uint(r.N(8))
			st.Fault("bit_flip")
		case "headbyte":
			if i := min(r.N(24), len(b)-1); r.P(0.3) {
				b[i] += byte(2*r.N(2) - 1) // one more or less
			} else {
				b[i] = byte(r.N(256))
			}
			st.Fault("byte_garbage")
		case "textbyte":
			// one character is another one, so that the text may still be well formed
			b[pos] = ".eE-+\",:[]{}0123456789tn "[r.N(25)]
			st.Fault("byte_garbage")
		case "extra":
			b = append(b, make([]byte, 1+r.N(9))...)
			st.Fault("disk_trailing_garbage")
		}
		key := x.kind
		o := rec[key]
		state := "used"
		if o == nil || r.P(0.3) {
			state = "new"
			switch x.kind {
			case "polyqp-raw":
				o = &rlwe.PolyQP{}
			case "poly-raw", "poly32-raw":
				o = new(ring.Poly)
			default:
				o = ps[r.N(2)].blank(x.kind, r)
			}
			rec[key] = o
		}
		what := fmt.Sprintf("%s (%d bytes, %s at %d, %s receiver)", x.kind, len(x.blob), mode, pos, state)
		keep := append([]byte(nil), b...)
		m0 := allocated()
		var err error
		oc := t.Step(s.ID, func() { err = dec(x.kind, o, b) })
		m1 := allocated()
		if oc.Budget {
			y.Check(false, "runaway", "decoding a damaged %s does not end", what)
			return
		}
		if !y.Check(oc.Panic == "", "crash/"+x.kind, "decoding a damaged %s panics: %s (in %s)", what, oc.Panic, oc.Where) {
			return
		}
		y.Check(m1-m0 < 16<<20+512*uint64(len(x.blob)), "memory", "decoding a damaged %s allocates %d MB", what, (m1-m0)>>20)
		y.Check(HB(keep) == HB(b), "blob-changed", "decoding a damaged %s changes the blob", what)
		if cut >= 0 && err == nil {
			// only a list may end early, between elements, and what it has must be right
			good := false
			if set, isSet := o.(*rlwe.RotationKeySet); isSet {
				full := x.full.(*rlwe.RotationKeySet)
				good = boundary(x.blob, cut, full)
				for g, k := range set.Keys {
					f, has := full.Keys[g]
					good = good && has && digSwk(1, f, true) == digSwk(1, k, true)
				}
				if !good {
					y.Check(false, "accepted-cut", "a %s is accepted with wrong or partial elements", what)
				}
			} else {
				y.Check(false, "accepted-cut", "a truncated %s is accepted", what)
			}
		}
		if err == nil && isJSON(x.kind) {
			var lit interface{} = new(rlwe.ParametersLiteral)
			if x.kind == "cparams-json" {
				lit = new(ckks.ParametersLiteral)
			}
			if e := json.Unmarshal(keep, lit); !y.Check(e == nil, "accepted-malformed", "a damaged %s is accepted, which is no text of parameters: %v", what, e) {
				return
			}
		}
		if err == nil {
			if bad := badParams(o); bad != "" {
				y.Check(false, "accepted-invalid", "a damaged %s is accepted as parameters with %s", what, bad)
				return
			}
		}
		st.StateS("%s/%s/%s/%s/%v", x.kind, mode, where, state, err == nil)
		st.Log(uint64(s.ID), b2u(err == nil))
		if y.Viol != nil {
			return
		}
		// the good copy
		g := append([]byte(nil), x.blob...)
		oc = t.Step(s.ID*10+100000, func() { err = dec(x.kind, o, g) })
		if !y.Check(oc.Panic == "" && err == nil, "good-after-bad", "after a damaged %s the good blob is not decoded: %s %v (in %s)", what, oc.Panic, err, oc.Where) {
			return
		}
		y.Check(digest(o) == x.dig || (isJSON(x.kind) && hasZero(x.full)), "good-after-bad", "after a damaged %s the good blob decodes to something else", what)
	})
	return y.Viol
}

// badParams says what no parameter set may have; empty for anything else than parameters.
func badParams(o interface{}) string {
	var p rlwe.Parameters
	switch v := o.(type) {
	case *rlwe.Parameters:
		p = *v
	case *ckks.Parameters:
		p = v.Parameters
		if p.LogN() > 0 && (v.LogSlots() < 0 || v.LogSlots() > v.MaxLogSlots()) {
			return fmt.Sprintf("2^%d slots in a ring of degree 2^%d", v.LogSlots(), p.LogN())
		}
	default:
		return ""
	}
	if p.LogN() == 0 && len(p.Q()) == 0 {
		return "" // the empty set
	}
	if p.LogN() < rlwe.MinLogN || p.LogN() > rlwe.MaxLogN {
		return fmt.Sprintf("the ring degree 2^%d", p.LogN())
	}
	if len(p.Q()) > rlwe.MaxModuliCount || len(p.P()) > rlwe.MaxModuliCount {
		return fmt.Sprintf("%d and %d moduli", len(p.Q()), len(p.P()))
	}
	for _, q := range append(append([]uint64(nil), p.Q()...), p.P()...) {
		if q%p.RingQ().NthRoot != 1 || !new(big.Int).SetUint64(q).ProbablyPrime(10) {
			return fmt.Sprintf("the modulus %d", q)
		}
	}
	if p.RingQ().N != p.N() || len(p.RingQ().Modulus) != len(p.Q()) {
		return "another ring"
	}
	return ""
}

func hasZero(o interface{}) bool {
	_, z := zeroDefaulted(o)
	return z
}

// boundary reports whether offset n of a rotation-key-set blob lies between two keys. All keys of a set have one size.
func boundary(blob []byte, n int, set *rlwe.RotationKeySet) bool {
	per := len(blob)
	if len(set.Keys) > 0 {
		per = len(blob) / len(set.Keys)
	}
	return n%per == 0
}
