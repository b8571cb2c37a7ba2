package worlds

import (
	"fmt"
	"reflect"

	"vsim/core"
	"vsim/run"
	"vsim/sched"
)

// Engines live long: they serve calls of every kind, level, scale, degree and slot count, and calls that are refused or
// starved of randomness. Every answer is compared with that of an engine built for the one call.

func init() {
	run.Register(&run.Prop{
		ID: "C03", Quick: 12000, Thorough: 150000,
		Worlds: []*run.World{
			{Kind: "veterans", Weight: 3, Gen: genC03(1), Exec: execC03},
			{Kind: "squad", Weight: 1, Gen: genC03(3), Exec: execC03},
		},
		Rule:   "one evaluation is one call of a used engine whose outcome and result were compared with those of a new engine, or whose randomised result was opened and checked; distinct are (engine kind, call, previous call) states and interleavings",
		Real:   []string{"all engines of ckks, fckks, rlwe, frlwe and ring, their constructors and copies, driven through exported methods"},
		Stub:   []string{"crypto/rand (simulated device: per-call streams, errors, short reads)", "goroutine scheduling (cooperative, seeded)"},
		Assume: []string{"key generators' and samplers' randomised results are judged by C12 and C08, which use long-lived ones too"},
	})
}

func genC03(nt int) func(p *run.Plan, r *core.RNG, thorough bool) {
	return func(p *run.Plan, r *core.RNG, thorough bool) {
		huge := genLib(p, r, 6, 4, thorough)
		p.Set("tasks", nt)
		kinds := 1 + r.N(3)
		var ks []int
		for len(ks) < kinds {
			k := r.W(engWeights...)
			if engKinds[k] == "samp" {
				continue
			}
			ks = append(ks, k)
		}
		for t := 0; t < nt; t++ {
			for _, k := range ks {
				p.Add(t, "build", int64(k), int64(r.W(3, 2, 1, 2)), 0, int64(r.U64()>>2))
			}
		}
		n := 10 + r.N(20)
		if thorough {
			n += r.N(30)
		}
		if nt > 1 {
			n = 8
		}
		if huge {
			n = 4
		}
		for c := 0; c < n*nt; c++ {
			p.Add(r.N(nt), "call", int64(r.N(1<<16)), int64(r.N(1<<16)), 0, int64(r.U64()>>2))
		}
		if r.P(0.3) {
			for k := 0; k < 1+r.N(3); k++ {
				p.Ent = append(p.Ent, sched.EntFault{Step: r.N(len(p.Steps)), At: r.N(3), Short: r.N(40) - 1, Sticky: r.P(0.3)})
			}
		}
		if nt > 1 {
			p.Sched = r.U64()
			p.Mean = 0.5
		}
	}
}

type c03Eng struct {
	c01Eng
	past []string
}

type c03 struct {
	y    *Sys
	l    *lib
	mine [][]*c03Eng
	bufs []bufs
}

// comparable: the value is an object with an identity.
func comparable(v interface{}) bool { return v != nil && reflect.TypeOf(v).Kind() == reflect.Ptr }

func shares(in []interface{}, o interface{}) bool {
	for _, x := range in {
		if comparable(o) && comparable(x) && x == o {
			return true
		}
	}
	return false
}

func (w *c03) faults() (n int64) {
	for _, k := range w.y.M.EntFaults {
		n += k
	}
	return
}

func (w *c03) do(t *sched.Task, s *run.Step) {
	y := w.y
	k := s.T % len(w.mine)
	switch s.Op {
	case "build":
		kind := engKinds[s.Mod(0, len(engKinds))]
		if !w.l.hasEng(kind) {
			return
		}
		var src interface{}
		for _, e := range w.mine[k] {
			if e.kind == kind {
				src = e.e
			}
		}
		var e interface{}
		if o := t.Step(s.ID, func() { e = w.l.build(kind, src, s.Mod(1, 4)) }); o.Panic == "" {
			w.mine[k] = append(w.mine[k], &c03Eng{c01Eng: c01Eng{kind: kind, e: e}})
		}
	case "call":
		if len(w.mine[k]) == 0 {
			return
		}
		r := core.NewRNG(uint64(s.Arg(3)))
		e := w.mine[k][s.Mod(0, len(w.mine[k]))]
		c := w.l.call(e.kind, r)
		// the used engine gets its arguments in the client's working buffers, as often as not
		args := func(wb *bufs) (in, out []interface{}) {
			q := core.NewRNG(uint64(s.Arg(3)) ^ 0x5a)
			out = cloneAll(c.out)
			in = append([]interface{}(nil), c.in...)
			if len(c.alias) > 0 && len(out) > 0 && !c.acc && q.P(0.2) {
				a := c.alias[q.N(len(c.alias))]
				if x := cloneV(in[a]); fmt.Sprintf("%T", x) == fmt.Sprintf("%T", out[0]) {
					in[a], out[0] = x, x
				}
			}
			if wb == nil || !q.P(0.5) {
				return
			}
			used := map[interface{}]bool{}
			for i := range in {
				if q.P(0.7) {
					x := wb.load(in[i], q, used)
					if len(out) > 0 && comparable(out[0]) && comparable(in[i]) && in[i] == out[0] {
						out[0] = x
					}
					in[i] = x
				}
			}
			for i := range out {
				if e.kind != "obj" && q.P(0.5) && !(len(in) > 0 && i == 0 && shares(in, out[0])) {
					out[i] = wb.load(out[i], q, used)
				}
			}
			return
		}
		in0, out0 := args(nil)
		in1, out1 := args(&w.bufs[k])
		var fresh, used []interface{}
		var f interface{}
		o0 := t.Step(-1000-2*s.ID, func() { f = w.l.build(e.kind, nil, 0) })
		if o0.Panic != "" {
			y.Check(false, "construction", "building %s failed: %s (in %s)", e.kind, o0.Panic, o0.Where)
			return
		}
		o0 = t.Step(-1001-2*s.ID, func() { fresh = c.run(f, in0, out0) })
		n := w.faults()
		o1 := t.Step(s.ID, func() { used = c.run(e.e, in1, out1) })
		hit := w.faults() != n
		if y.Viol != nil {
			return
		}
		prev := ""
		if len(e.past) > 0 {
			prev = e.past[len(e.past)-1]
		}
		y.St.State(core.HS(c.kind), core.HS(c.name), core.HS(prev))
		name := fmt.Sprintf("%s %s %s, call %d of the engine", c.kind, c.name, c.note, len(e.past)+1)
		mark := ""
		if o1.Panic != "" {
			y.St.Fault("call_refused_or_abandoned")
			mark = "!"
		}
		e.past = append(e.past, c.name+mark)
		tail := e.past
		if len(tail) > 6 {
			tail = tail[len(tail)-6:]
		}
		switch {
		case hit && o1.Panic != "":
			// starved of randomness: any refusal will do
		case o0.Panic != "" || o1.Panic != "":
			y.Check((o0.Panic == "") == (o1.Panic == ""), "history-outcome", "%s: a new engine says %q, the used one %q (in %s); its last calls: %v", name, o0.Panic, o1.Panic, o1.Where, tail)
		case !c.rnd:
			y.Check(digAll(fresh) == digAll(used), "history", "%s: the result differs from a new engine's; its last calls: %v", name, tail)
		case c.valid != nil:
			bad := ""
			t.Step(-1, func() { sched.Pause(func() { bad = c.valid(used) }) })
			y.Check(bad == "", "history-random", "%s: %s; its last calls: %v", name, bad, tail)
		}
		y.St.Log(uint64(s.ID), digAll(used), uint64(b2i(o1.Panic != "")))
	}
}

func execC03(p *run.Plan, st *run.Stats) *run.Violation {
	w := &c03{y: &Sys{P: p, St: st}}
	y := w.y
	nt := max(1, p.Get("tasks"))
	setup := func() bool { return y.Setup(-1, func() { w.l = newLib(p) }) }
	if !setup() {
		return y.Viol
	}
	exec := func(pre []sched.Preempt, record bool) {
		w.mine = make([][]*c03Eng, nt)
		w.bufs = make([]bufs, nt)
		y.Tasks(nt, pre, record, nil, w.do)
	}
	if p.Pre == nil && p.Sched != 0 {
		exec(nil, true)
		if y.Viol != nil {
			return y.Viol
		}
		y.schedule(nt)
		if !setup() {
			return y.Viol
		}
	}
	exec(p.Pre, false)
	return y.Viol
}
