package worlds

import (
	"fmt"

	"fast-ksw/ckks"

	"vsim/core"
	"vsim/run"
	"vsim/sched"
)

// Callers write results into receivers with a past: objects full of other values at other levels, degrees and scales,
// results of earlier calls, receivers of calls that were refused half way, and the operands themselves. Every result is
// compared with the one an empty receiver of exactly the right size gets.

func init() {
	run.Register(&run.Prop{
		ID: "C04", Quick: 12000, Thorough: 150000,
		Worlds: []*run.World{
			{Kind: "receivers", Weight: 1, Gen: genC04, Exec: execC04},
		},
		Rule:   "one evaluation is one result in a receiver with a past, in place or in a created receiver, compared with the result in an empty receiver of the right size, or one randomised result in such a receiver opened and checked; distinct are (engine kind, call, kind of receiver, size of receiver) states",
		Real:   []string{"all engines of ckks, fckks, rlwe, frlwe and ring, driven through exported methods"},
		Stub:   []string{"crypto/rand (simulated device: per-call streams, errors, short reads)"},
		Assume: []string{"receivers of CKKS evaluators are in the NTT domain, as the library's constructors make them"},
	})
}

func genC04(p *run.Plan, r *core.RNG, thorough bool) {
	huge := genLib(p, r, 6, 4, thorough)
	kinds := 2 + r.N(3)
	var ks []int
	for len(ks) < kinds {
		k := r.W(engWeights...)
		switch engKinds[k] {
		case "samp", "kg", "fkg": // they take no receivers
			continue
		}
		ks = append(ks, k)
	}
	n := 14 + r.N(20)
	if thorough {
		n += r.N(30)
	}
	if huge {
		n = 6
	}
	for c := 0; c < n; c++ {
		p.Add(0, "call", int64(ks[r.N(len(ks))]), int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.U64()>>2))
	}
	if r.P(0.2) {
		for k := 0; k < 1+r.N(3); k++ {
			p.Ent = append(p.Ent, sched.EntFault{Step: r.N(n), At: r.N(3), Short: r.N(40) - 1, Sticky: r.P(0.3)})
		}
	}
}

type c04 struct {
	y    *Sys
	l    *lib
	pool []interface{} // receivers with a past
	how  []string
}

// size of a ciphertext or plaintext receiver.
func sizeOf(v interface{}) (deg, lvl int, ok bool) {
	switch v := v.(type) {
	case *ckks.Ciphertext:
		return v.Degree(), v.Level(), true
	case *ckks.Plaintext:
		return 0, v.Level(), true
	}
	return 0, 0, false
}

func (w *c04) keep(v interface{}, how string) {
	if _, _, ok := sizeOf(v); !ok {
		return
	}
	for i := range w.pool {
		if w.pool[i] == v {
			w.how[i] = how
			return
		}
	}
	if len(w.pool) > 7 {
		w.pool, w.how = w.pool[1:], w.how[1:]
	}
	w.pool, w.how = append(w.pool, v), append(w.how, how)
}

// used finds a receiver with a past that is large enough.
func (w *c04) used(c *ccall, fit interface{}, k int) (interface{}, string) {
	deg, lvl, ok := sizeOf(fit)
	for i := 0; ok && i < len(w.pool); i++ {
		j := (i + k) % len(w.pool)
		v := w.pool[j]
		d, l, _ := sizeOf(v)
		if fmt.Sprintf("%T", v) != fmt.Sprintf("%T", fit) || d < deg || l < lvl || c.exact && (l != lvl || d != deg) {
			continue
		}
		switch x := v.(type) {
		case *ckks.Ciphertext:
			o := fit.(*ckks.Ciphertext)
			same := true
			for _, p := range x.Value {
				same = same && p.IsNTT == o.Value[0].IsNTT
			}
			if !same {
				continue
			}
			return v, "a receiver with a past (" + w.how[j] + ")"
		case *ckks.Plaintext:
			o := fit.(*ckks.Plaintext)
			if l != lvl || x.Value.IsNTT != o.Value.IsNTT {
				continue // its level is part of the request
			}
			if c.kind == "ecd" || c.kind == "big" {
				x.Scale = o.Scale // and its scale, which the caller sets
			}
			return v, "a receiver with a past (" + w.how[j] + ")"
		}
	}
	return nil, ""
}

func (w *c04) do(t *sched.Task, s *run.Step) {
	y := w.y
	kind := engKinds[s.Mod(0, len(engKinds))]
	if !w.l.hasEng(kind) {
		return
	}
	r := core.NewRNG(uint64(s.Arg(3)))
	c := w.l.call(kind, r)
	if c.acc || c.out == nil && c.fit == nil && !c.creates {
		return
	}
	engine := func() (e interface{}) {
		if o := t.Step(-1000-s.ID, func() { e = w.l.build(kind, nil, 0) }); o.Panic != "" {
			y.Check(false, "construction", "building %s failed: %s (in %s)", kind, o.Panic, o.Where)
		}
		return
	}
	name := fmt.Sprintf("%s %s %s", c.kind, c.name, c.note)
	// a receiver with a past instead of the drawn one
	out, past := cloneAll(c.out), "a receiver holding other values"
	if c.fit != nil && len(out) == 1 && s.Arg(1)%3 == 0 {
		if v, how := w.used(c, c.fit()[0], s.Mod(2, 1<<16)); v != nil {
			out[0], past = v, how
		}
	}
	size := func(kind string, v []interface{}) {
		if len(v) > 0 {
			d, l, _ := sizeOf(v[0])
			y.St.State(core.HS(c.kind), core.HS(c.name), core.HS(kind), uint64(d), uint64(l))
		}
	}
	if c.rnd {
		if c.valid == nil || out == nil {
			return
		}
		e := engine()
		var res []interface{}
		size(past, out)
		n := w.faults()
		o := t.Step(s.ID, func() { res = c.run(e, c.in, out) })
		if y.Viol != nil {
			return
		}
		if o.Panic != "" {
			y.St.Fault("call_refused_or_abandoned")
			w.keep(out[0], c.name+", abandoned")
			if w.faults() == n && o.IsRuntime() {
				y.Check(false, "receiver-crash", "%s into %s crashed: %s (in %s)", name, past, o.Panic, o.Where)
			}
			return
		}
		bad := ""
		t.Step(-1, func() { sched.Pause(func() { bad = c.valid(res) }) })
		y.Check(bad == "", "receiver-random", "%s into %s: %s", name, past, bad)
		w.keep(res[0], c.name)
		return
	}
	var want []interface{}
	e := engine()
	var o0 Outcome
	if c.fit != nil {
		o0 = t.Step(-1001-s.ID, func() { want = c.run(e, c.in, c.fit()) })
	} else {
		return
	}
	if y.Viol != nil {
		return
	}
	if o0.Panic != "" {
		// refused whatever the receiver: what the refusal leaves in the receiver is its new past
		y.St.Fault("call_refused_or_abandoned")
		if out != nil {
			e = engine()
			t.Step(s.ID, func() { c.run(e, c.in, out) })
			w.keep(out[0], c.name+", refused")
		}
		return
	}
	d0 := digAll(want)
	y.St.Log(uint64(s.ID), d0)
	compare := func(what string, in, out []interface{}) []interface{} {
		if y.Viol != nil {
			return nil
		}
		e := engine()
		var res []interface{}
		size(what, out)
		o := t.Step(s.ID, func() { res = c.run(e, in, out) })
		if y.Viol != nil {
			return nil
		}
		if o.Panic != "" {
			y.St.Fault("call_refused_or_abandoned")
			y.Check(!o.IsRuntime(), "receiver-crash", "%s into %s crashed: %s (in %s)", name, what, o.Panic, o.Where)
			if d0, _, ok := sizeOf(want[0]); ok && len(out) > 0 {
				if d, _, _ := sizeOf(out[0]); d != d0 {
					return nil // some operations insist on a receiver of the result's degree
				}
			}
			y.Check(false, "receiver-refused", "%s into %s was refused: %s (in %s)", name, what, o.Panic, o.Where)
			return nil
		}
		y.Check(digAll(res) == d0, "receiver", "%s into %s gives %s, into an empty receiver of the right size %s", name, what, describe(res), describe(want))
		return res
	}
	if out != nil {
		if res := compare(past, c.in, out); len(res) == 1 {
			w.keep(res[0], c.name)
		}
	}
	if c.creates {
		compare("a created receiver", c.in, nil)
	}
	if len(c.alias) > 0 && s.Arg(2)%2 == 0 {
		a := c.alias[s.Mod(1, len(c.alias))]
		in := append([]interface{}(nil), c.in...)
		x := cloneV(in[a])
		if out := c.fit(); fmt.Sprintf("%T", x) == fmt.Sprintf("%T", out[0]) && w.roomy(c, x, out[0]) {
			for i := range in {
				if c.in[i] == c.in[a] {
					in[i] = x
				}
			}
			out[0] = x
			compare(fmt.Sprintf("operand %d", a), in, out)
		}
	}
}

// roomy says whether an operand is large enough to hold the result.
func (w *c04) roomy(c *ccall, x, fit interface{}) bool {
	deg, lvl, ok := sizeOf(fit)
	d, l, _ := sizeOf(x)
	return !ok || d >= deg && l >= lvl || c.grows && l >= lvl
}

func (w *c04) faults() (n int64) {
	for _, k := range w.y.M.EntFaults {
		n += k
	}
	return
}

func describe(v []interface{}) (s string) {
	for _, x := range v {
		switch x := x.(type) {
		case *ckks.Ciphertext:
			s += fmt.Sprintf("[degree %d level %d scale %v %x]", x.Degree(), x.Level(), x.Scale, digV(x)>>48)
		case *ckks.Plaintext:
			s += fmt.Sprintf("[level %d scale %v NTT %v %x]", x.Level(), x.Scale, x.Value.IsNTT, digV(x)>>48)
		default:
			s += fmt.Sprintf("[%x]", digV(x)>>48)
		}
	}
	return
}

func execC04(p *run.Plan, st *run.Stats) *run.Violation {
	w := &c04{y: &Sys{P: p, St: st}}
	if !w.y.Setup(-1, func() { w.l = newLib(p) }) {
		return w.y.Viol
	}
	w.y.Serial(w.do)
	return w.y.Viol
}
