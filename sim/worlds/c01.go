package worlds

import (
	"fmt"

	"vsim/core"
	"vsim/globals"
	"vsim/hook"
	"vsim/run"
	"vsim/sched"
)

// Callers drive engines that were built separately, copied or re-keyed from common originals, over shared parameters,
// keys and inputs. Each caller first runs alone; then all run together under seeded preemption. Randomness is delivered
// per call, so every answer has to be the same.

func init() {
	run.Register(&run.Prop{
		ID: "C01", Quick: 12000, Thorough: 150000,
		Worlds: []*run.World{
			{Kind: "callers", Weight: 3, Gen: genC01(2), Exec: execC01},
			{Kind: "crowd", Weight: 1, Gen: genC01(4), Exec: execC01},
		},
		Rule:   "one evaluation is one call whose outcome under an interleaving was compared with the caller's run alone; distinct are (engine kind, origin, call) states and interleavings",
		Real:   []string{"all engines of ckks, fckks, rlwe, frlwe and ring, their constructors, copies and re-keyings, driven through exported methods"},
		Stub:   []string{"crypto/rand (simulated device: one stream per call)", "goroutine scheduling (cooperative, seeded; switches at statement and loop boundaries of the library)"},
		Assume: []string{"switches happen at the instrumented points, not between the instructions of one statement"},
	})
}

func genC01(nt int) func(p *run.Plan, r *core.RNG, thorough bool) {
	return func(p *run.Plan, r *core.RNG, thorough bool) {
		huge := genLib(p, r, 6, 4, thorough)
		n := nt
		if nt > 2 {
			n = 3 + r.N(nt-2)
		} else if r.P(0.2) {
			n = 3
		}
		p.Set("tasks", n)
		// few kinds at a time, so that relatives meet
		kinds := 1 + r.N(4)
		var ks []int
		for len(ks) < kinds {
			ks = append(ks, r.W(engWeights...))
		}
		calls := 2 + r.N(6)
		if thorough {
			calls += r.N(6)
		}
		if huge {
			n, ks, calls = min(n, 2), ks[:1], 2
			p.Set("tasks", n)
		}
		for t := 0; t < n; t++ {
			for _, k := range ks {
				p.Add(t, "build", int64(k), int64(r.W(2, 5, 2, 3)), int64(r.N(8)), int64(r.U64()>>2))
			}
		}
		var past [][2]int64 // some calls are made again, by the same or another caller
		for c := 0; c < calls*n; c++ {
			t := r.N(n)
			if r.P(0.12) {
				p.Add(t, "build", int64(ks[r.N(len(ks))]), int64(r.W(1, 5, 2, 3)), int64(r.N(8)), int64(r.U64()>>2))
				continue
			}
			e, seed := int64(r.N(1<<16)), int64(r.U64()>>2)
			if len(past) > 0 && r.P(0.2) {
				x := past[r.N(len(past))]
				e, seed = x[0], x[1]
			}
			past = append(past, [2]int64{e, seed})
			p.Add(t, "call", e, 0, 0, seed)
		}
		if r.P(0.25) {
			for k := 0; k < 1+r.N(2); k++ {
				p.Ent = append(p.Ent, sched.EntFault{Step: r.N(len(p.Steps)), At: r.N(3), Short: r.N(40) - 1, Sticky: r.P(0.3)})
			}
		}
		p.Set("idle", b2i(r.P(0.12)))
		p.Sched = r.U64()
		p.Mean = 0.4 + r.F()
	}
}

type c01Eng struct {
	kind, how string
	e         interface{}
}

type c01Res struct {
	refused bool
	panic   string
	where   string
	dig     uint64
	what    string
	wrote   string // memory of idle engines that was written
}

type c01 struct {
	y    *Sys
	l    *lib
	base map[string]interface{}
	mine [][]*c01Eng
	idle bool // look at the memory of engines nobody is using
}

// still takes the memory of the engines that are not in use while e is, of what they share and of the package variables;
// the returned function tells what of it has been written since by anything but a synchronised operation.
func (w *c01) still(k int, e interface{}) func() string {
	if !w.idle || hook.Atomics {
		return func() string { return "" }
	}
	names, roots := packageVars()
	add := func(n string, x interface{}) {
		if x != nil && (e == nil || !sameEng(x, e)) {
			names, roots = append(names, n), append(roots, x)
		}
	}
	for _, kind := range engKinds {
		add("original "+kind, w.base[kind])
	}
	for _, x := range w.mine[k] {
		add(x.how+" "+x.kind, x.e)
	}
	if l := w.l; l != nil {
		add("parameters", &l.p)
		add("fast parameters", &l.fp)
		add("fast parameters", &l.fr)
		add("keys", []interface{}{l.sk[0], l.sk[1], l.pk, l.rlk, l.rtks, l.swk, l.frlk, l.frtk, l.fswk[0], l.fswk[1]})
	}
	m, n := reach(names, roots), hook.Syncs
	return func() string {
		if hook.Syncs != n {
			return ""
		}
		w.y.St.Evals++
		return m.written(reach(names, roots))
	}
}

// fresh builds parameters, keys, inputs and the originals; the same for every run.
func (w *c01) fresh() bool {
	globals.Reset()
	w.l, w.base = nil, map[string]interface{}{}
	w.mine = make([][]*c01Eng, max(1, w.y.P.Get("tasks")))
	wrote := func(what, l string) bool {
		return w.y.Check(l == "", "unguarded-write", "%s wrote to memory that others reach, without synchronisation: %s", what, l)
	}
	still := w.still(0, nil)
	if !w.y.Setup(-1, func() { w.l = newLib(w.y.P) }) || !wrote("building parameters and keys", still()) {
		return false
	}
	for i, k := range engKinds {
		if !w.l.hasEng(k) || !w.uses(i) {
			continue
		}
		still := w.still(0, nil)
		if !w.y.Setup(-2-i, func() { w.base[k] = w.l.build(k, nil, 0) }) || !wrote("building the original "+k, still()) {
			return false
		}
	}
	return true
}

func (w *c01) uses(i int) bool {
	for k := range w.y.P.Steps {
		if s := &w.y.P.Steps[k]; s.Op == "build" && s.Mod(0, len(engKinds)) == i {
			return true
		}
	}
	return false
}

// do runs one step of a caller and returns what the caller saw.
func (w *c01) do(t *sched.Task, s *run.Step, k int) *c01Res {
	r := core.NewRNG(uint64(s.Arg(3)))
	res := &c01Res{}
	end := func(o Outcome) *c01Res {
		res.refused, res.panic, res.where = o.Panic != "", o.Panic, o.Where
		return res
	}
	switch s.Op {
	case "build":
		kind := engKinds[s.Mod(0, len(engKinds))]
		if !w.l.hasEng(kind) {
			return nil
		}
		how := s.Mod(1, len(engHows))
		src := w.base[kind]
		// a copy of the original, or of an own engine
		if i := s.Mod(2, 8); i > 3 {
			for _, e := range w.mine[k] {
				if e.kind == kind {
					src = e.e
				}
			}
		} else if i == 3 && k == 0 {
			// the original itself, used by one caller while others copy it
			w.mine[k] = append(w.mine[k], &c01Eng{kind, "original", src})
			return nil
		}
		var e interface{}
		still := w.still(k, nil)
		o := t.Step(s.ID, func() { e = w.l.build(kind, src, how) })
		res.wrote = still()
		if e != nil && o.Panic == "" {
			w.mine[k] = append(w.mine[k], &c01Eng{kind, engHows[how], e})
		}
		res.what = "building (" + engHows[how] + ") " + kind
		return end(o)
	case "call":
		if len(w.mine[k]) == 0 {
			return nil
		}
		e := w.mine[k][s.Mod(0, len(w.mine[k]))]
		c := w.l.call(e.kind, r)
		out := cloneAll(c.out)
		in := c.in
		if len(c.alias) > 0 && len(out) > 0 && !c.acc && r.P(0.2) {
			a := c.alias[r.N(len(c.alias))]
			in = append([]interface{}(nil), in...)
			x := cloneV(in[a])
			if fmt.Sprintf("%T", x) == fmt.Sprintf("%T", out[0]) {
				in[a], out[0] = x, x
			}
		}
		var vals []interface{}
		still := w.still(k, e.e)
		o := t.Step(s.ID, func() { vals = c.run(e.e, in, out) })
		res.wrote = still()
		if o.Panic == "" {
			res.dig = digAll(vals)
		}
		res.what = fmt.Sprintf("%s %s (%s) %s", e.kind, c.name, e.how, c.note)
		w.y.St.State(core.HS(e.kind), core.HS(c.name), core.HS(e.how), uint64(b2i(o.Panic != "")))
		return end(o)
	}
	run.Fail("step %s", s.Op)
	return nil
}

func execC01(p *run.Plan, st *run.Stats) *run.Violation {
	w := &c01{y: &Sys{P: p, St: st}}
	y := w.y
	nt := max(1, p.Get("tasks"))
	record := p.Pre == nil && p.Sched != 0
	alone := map[int]*c01Res{}
	profs := map[int]*sched.Profile{}
	for k := 0; k < nt; k++ {
		w.idle = k == 0 && p.Get("idle") == 1
		ok := w.fresh()
		w.idle = false
		if !ok {
			return y.Viol
		}
		k := k
		y.Tasks(nt, nil, record, nil, func(t *sched.Task, s *run.Step) {
			if s.T%nt == k {
				w.idle = p.Get("idle") == 1
				a := w.do(t, s, k)
				w.idle = false
				alone[s.ID] = a
				if a != nil {
					y.Check(a.wrote == "", "unguarded-write", "caller %d, step %d, %s: wrote to memory that engines not in use reach, without synchronisation: %s", k, s.ID, a.what, a.wrote)
				}
			}
		})
		if y.Viol != nil {
			return y.Viol
		}
		for id, pr := range y.M.Profiles {
			profs[id] = pr
		}
	}
	if record {
		y.M.Profiles = profs
		y.schedule(nt)
	}
	w.together(nt, record, alone)
	if y.Viol != nil || !record {
		return y.Viol
	}
	// a step that went, among others, through code it does not reach alone: stop it there
	r := core.NewRNG(p.Sched ^ 0x0e1)
	base := p.Pre
	for k := 0; k < 6; k++ {
		more := sched.Novel(r, profs, y.M.Profiles, nt)
		if more == nil {
			break
		}
		p.Pre = append(append([]sched.Preempt(nil), base...), more...)
		st.Fault("preempted_where_only_the_crowd_leads")
		w.together(nt, true, alone)
		if y.Viol != nil {
			return y.Viol
		}
	}
	return y.Viol
}

// together runs all callers under the plan's preemptions and compares every outcome with the one the caller got alone.
func (w *c01) together(nt int, record bool, alone map[int]*c01Res) {
	y, p, st := w.y, w.y.P, w.y.St
	if !w.fresh() {
		return
	}
	y.Watch = record
	defer func() { y.Watch = false }()
	y.Tasks(nt, p.Pre, false, nil, func(t *sched.Task, s *run.Step) {
		k := s.T % nt
		a := alone[s.ID]
		b := w.do(t, s, k)
		if a == nil || b == nil {
			if (a == nil) != (b == nil) {
				run.Fail("step %d was skipped in one run", s.ID)
			}
			return
		}
		if y.Viol != nil {
			return
		}
		st.Log(uint64(s.ID), a.dig, b.dig, uint64(b2i(b.refused)))
		if b.refused {
			st.Fault("call_refused_or_abandoned")
		}
		switch {
		case a.refused != b.refused:
			y.Check(false, "interference", "caller %d, step %d, %s: alone %s, among others %s", k, s.ID, a.what, a.outcome(), b.outcome())
		default:
			y.Check(a.refused || a.dig == b.dig, "interference", "caller %d, step %d, %s: the result differs from the one the caller gets alone", k, s.ID, a.what)
		}
	})
}

func (r *c01Res) outcome() string {
	if r.refused {
		return fmt.Sprintf("it ended with %q (in %s)", r.panic, r.where)
	}
	return "it completed"
}
