package worlds

import (
	"fmt"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
	"vsim/run"
	"vsim/sched"
)

// Callers run every operation of the library on shared parameters, keys and inputs. Whenever the processor is taken
// away inside a call, and after every call, an observer fingerprints what the running calls were only given to read, and
// what all callers share.

func init() {
	run.Register(&run.Prop{
		ID: "C02", Quick: 12000, Thorough: 150000,
		Worlds: []*run.World{
			{Kind: "observed", Weight: 3, Gen: genC02(1), Exec: execC02},
			{Kind: "shared", Weight: 1, Gen: genC02(3), Exec: execC02},
		},
		Rule:   "one evaluation is one fingerprint of a call's inputs (at a preemption point inside the call or after it) or of everything the callers share, compared with the fingerprint before; distinct are (engine kind, call, observation site) states and interleavings",
		Real:   []string{"all engines of ckks, fckks, rlwe, frlwe and ring, driven through exported methods", "parameters, keys, ciphertexts, plaintexts and their fingerprints through exported fields and accessors"},
		Stub:   []string{"crypto/rand (simulated device: per-call streams, errors, short reads)", "goroutine scheduling (cooperative, seeded)"},
		Assume: []string{"tables reachable only through unexported fields are observed through the results of later calls (C01, C03)"},
	})
}

func genC02(nt int) func(p *run.Plan, r *core.RNG, thorough bool) {
	return func(p *run.Plan, r *core.RNG, thorough bool) {
		huge := genLib(p, r, 6, 4, thorough)
		p.Set("tasks", nt)
		var ks []int
		for i := 0; i < 4; i++ {
			ks = append(ks, r.W(engWeights...))
		}
		for t := 0; t < nt; t++ {
			for _, k := range ks {
				p.Add(t, "build", int64(k), int64(r.N(4)), 0, int64(r.U64()>>2))
			}
		}
		n := 8 + r.N(8)
		if huge {
			n = 4
		}
		for c := 0; c < n*nt; c++ {
			p.Add(r.N(nt), "call", int64(r.N(1<<16)), int64(r.N(1<<16)), 0, int64(r.U64()>>2))
		}
		if r.P(0.3) {
			for k := 0; k < 1+r.N(3); k++ {
				p.Ent = append(p.Ent, sched.EntFault{Step: r.N(len(p.Steps)), At: r.N(3), Short: r.N(40) - 1, Sticky: r.P(0.3)})
			}
		}
		p.Sched = r.U64()
		p.Mean = 1 + 3*r.F()
		if nt > 1 {
			p.Mean = 0.7
		}
	}
}

type c02run struct {
	kind, name, note string
	in               []interface{}
	dig              []uint64
}

type c02 struct {
	y    *Sys
	l    *lib
	mine [][]*c01Eng
	now  map[int]*c02run // by step
	h0   uint64
	kept []*c02run // results of earlier calls, which nobody was told to change
}

// retain keeps a call's results under observation, or spoils them: what was handed in, what is shared and what earlier
// calls returned must not notice.
func (w *c02) retain(c *c02run, res []interface{}, spoil bool) {
	if spoil {
		for _, v := range res {
			spoilV(v)
		}
		return
	}
	k := &c02run{kind: c.kind, name: c.name, note: c.note}
	for _, v := range res {
		k.in = append(k.in, v)
		k.dig = append(k.dig, digV(v))
	}
	if len(w.kept) > 9 {
		w.kept = w.kept[1:]
	}
	w.kept = append(w.kept, k)
}

func (w *c02) checkKept(when string) {
	for _, k := range w.kept {
		for i, x := range k.in {
			if !w.y.Check(digV(x) == k.dig[i], "result-modified", "result %d (%T) of an earlier %s %s %s has changed %s", i, x, k.kind, k.name, k.note, when) {
				return
			}
		}
	}
}

// spoilV overwrites a result in place.
func spoilV(v interface{}) {
	poly := func(p *ring.Poly) {
		if p != nil {
			for _, c := range p.Coeffs {
				for j := range c {
					c[j] ^= 0x155555
				}
			}
		}
	}
	switch v := v.(type) {
	case *ckks.Ciphertext:
		for _, p := range v.Value {
			poly(p)
		}
	case *rlwe.Ciphertext:
		for _, p := range v.Value {
			poly(p)
		}
	case *ckks.Plaintext:
		poly(v.Value)
	case *rlwe.Plaintext:
		poly(v.Value)
	case *ring.Poly:
		poly(v)
	case rows:
		poly(v.p)
	case rlwe.PolyQP:
		poly(v.Q)
		poly(v.P)
	case []rlwe.PolyQP:
		for _, x := range v {
			poly(x.Q)
			poly(x.P)
		}
	case *rlwe.SecretKey:
		spoilV(v.Value)
	case *rlwe.PublicKey:
		spoilV(v.Value[0])
		spoilV(v.Value[1])
	case *rlwe.SwitchingKey:
		for _, x := range v.Value {
			spoilV(x[0])
			spoilV(x[1])
		}
	case *rlwe.RelinearizationKey:
		for _, x := range v.Keys {
			spoilV(x)
		}
	case *frlwe.SwitchingKey:
		for _, r := range v.Value {
			for _, x := range r {
				poly(x)
			}
		}
	case *frlwe.RelinKey:
		spoilV(v.Value[0])
		spoilV(v.Value[1])
	case *frlwe.RotationKey:
		spoilV(v.Value[0])
		spoilV(v.Value[1])
	case []complex128:
		for i := range v {
			v[i] += 7
		}
	case []float64:
		for i := range v {
			v[i] += 7
		}
	case []uint64:
		for i := range v {
			v[i]++
		}
	case []int:
		for i := range v {
			v[i]++
		}
	case []byte:
		for i := range v {
			v[i] ^= 0x55
		}
	case []*big.Int:
		for _, x := range v {
			x.Add(x, big.NewInt(1))
		}
	case *big.Int:
		v.Add(v, big.NewInt(1))
	case []*ring.Complex:
		for _, x := range v {
			for k := 0; k < 2; k++ {
				if x[k] != nil {
					x[k].Add(x[k], big.NewFloat(1))
				}
			}
		}
	}
}

func (w *c02) look(c *c02run, when string) {
	for i, x := range c.in {
		if !w.y.Check(digV(x) == c.dig[i], "input-modified", "%s %s %s: argument %d (%T) differs from what was handed in %s", c.kind, c.name, c.note, i, x, when) {
			return
		}
	}
}

func (w *c02) do(t *sched.Task, s *run.Step) {
	y := w.y
	k := s.T % len(w.mine)
	switch s.Op {
	case "build":
		kind := engKinds[s.Mod(0, len(engKinds))]
		if !w.l.hasEng(kind) {
			return
		}
		var src interface{}
		for _, e := range w.mine[k] {
			if e.kind == kind {
				src = e.e
			}
		}
		var e interface{}
		c := &c02run{kind: kind, name: "construction"}
		w.now[s.ID] = c
		o := t.Step(s.ID, func() { e = w.l.build(kind, src, s.Mod(1, 4)) })
		delete(w.now, s.ID)
		if o.Panic == "" {
			w.mine[k] = append(w.mine[k], &c01Eng{kind: kind, e: e})
		}
	case "call":
		if len(w.mine[k]) == 0 {
			return
		}
		r := core.NewRNG(uint64(s.Arg(3)))
		e := w.mine[k][s.Mod(0, len(w.mine[k]))]
		call := w.l.call(e.kind, r)
		c := &c02run{kind: e.kind, name: call.name, note: call.note}
		out := cloneAll(call.out)
		in := append([]interface{}(nil), call.in...)
		c.in = append(c.in, in...)
		if len(call.alias) > 0 && len(out) > 0 && !call.acc && r.P(0.25) {
			// one of the operands is the receiver; the others stay read-only
			a := call.alias[r.N(len(call.alias))]
			if x := cloneV(in[a]); fmt.Sprintf("%T", x) == fmt.Sprintf("%T", out[0]) {
				in[a], out[0] = x, x
				c.name += " in place"
			}
		}
		for _, x := range c.in {
			c.dig = append(c.dig, digV(x))
		}
		w.now[s.ID] = c
		var res []interface{}
		o := t.Step(s.ID, func() { res = call.run(e.e, in, out) })
		delete(w.now, s.ID)
		if y.Viol != nil {
			return
		}
		if o.Panic != "" {
			y.St.Fault("call_refused_or_abandoned")
			w.look(c, fmt.Sprintf("after the call ended with %q (in %s)", o.Panic, o.Where))
		} else {
			w.look(c, "after the call")
		}
		w.checkKept(fmt.Sprintf("after %s %s %s", c.kind, c.name, c.note))
		if spoil := r.P(0.4); o.Panic == "" && y.Viol == nil {
			if y.St.Log(uint64(s.ID), 1, digAll(out)); spoil {
				y.St.Fault("result_overwritten_by_its_owner")
			}
			w.retain(c, res, spoil)
			w.look(c, "after the result was overwritten by its owner")
			w.checkKept(fmt.Sprintf("after the result of %s %s %s was overwritten by its owner", c.kind, c.name, c.note))
		}
		y.St.State(core.HS(c.kind), core.HS(c.name))
		y.St.Log(uint64(s.ID), uint64(b2i(o.Panic != "")))
	}
	if y.Viol == nil {
		y.Check(w.l.shared() == w.h0, "shared-modified", "shared parameters, keys or inputs differ after step %d (%s)", s.ID, s.Op)
	}
}

func execC02(p *run.Plan, st *run.Stats) *run.Violation {
	w := &c02{y: &Sys{P: p, St: st}}
	y := w.y
	nt := max(1, p.Get("tasks"))
	exec := func(pre []sched.Preempt, record bool) {
		w.mine = make([][]*c01Eng, nt)
		w.now = map[int]*c02run{}
		w.kept = nil
		if !y.Setup(-1, func() { w.l = newLib(p) }) {
			return
		}
		w.h0 = w.l.shared()
		y.Tasks(nt, pre, record, func(step int, off int64, site int32) {
			// the observer reads everything that any unfinished call may only read
			if record || y.Viol != nil {
				return
			}
			c := w.now[step]
			if c == nil {
				return
			}
			st.Fault("observed_inside_a_call")
			st.State(core.HS(c.kind), core.HS(c.name), uint64(site))
			w.look(c, fmt.Sprintf("at a point inside the call (yield %d)", off))
			if y.Viol == nil && core.H(uint64(step), uint64(off))%4 == 0 {
				y.Check(w.l.shared() == w.h0, "shared-modified", "shared parameters, keys or inputs differ at a point inside %s %s %s (yield %d)", c.kind, c.name, c.note, off)
			}
		}, w.do)
	}
	if p.Pre == nil && p.Sched != 0 {
		exec(nil, true)
		if y.Viol != nil {
			return y.Viol
		}
		y.schedule(nt)
	}
	exec(p.Pre, false)
	return y.Viol
}
