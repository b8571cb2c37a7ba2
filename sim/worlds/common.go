// Package worlds holds the simulated systems, one file per property.
package worlds

import (
	"fmt"

	"vsim/core"
	"vsim/globals"
	simmrand "vsim/hook/simmrand"
	"vsim/run"
	"vsim/sched"
)

// Outcome aliases.
type Outcome = sched.Outcome

// Sys is a simulated system driven by the plan's steps.
type Sys struct {
	P    *run.Plan
	St   *run.Stats
	M    *sched.Sim
	Viol *run.Violation
	// EntSeed changes the randomness source only.
	EntSeed uint64
	// EntWin confines the change to a window of each long request.
	EntWin int
	// Watch keeps the profiles of a run in which the tasks meet.
	Watch bool
}

// V records the first violation.
func (y *Sys) V(class, format string, a ...interface{}) {
	if y.Viol == nil {
		y.Viol = run.Viol(class, format, a...)
	}
}

// Check counts an evaluation and records a violation if ok is false.
func (y *Sys) Check(ok bool, class, format string, a ...interface{}) bool {
	y.St.Evals++
	if !ok {
		y.V(class, format, a...)
	}
	return ok
}

// room gives the steps of runs over the largest rings more statements.
func (y *Sys) room() {
	if y.P.Get("logn") > 13 {
		y.M.StepBudget *= 16
	}
}

// Solo runs body as the only task of a simulation. Ids below zero are for setup steps.
func (y *Sys) Solo(pre []sched.Preempt, ent []sched.EntFault, body func(t *sched.Task)) bool {
	simmrand.Reset(int64(y.P.Seed))
	y.M = sched.New(y.P.Seed^y.EntSeed, pre, ent)
	y.room()
	y.M.EntWin, y.M.BaseSeed = y.EntWin, y.P.Seed
	y.M.Task("main", body)
	v := run.RunSim(y.M, y.St)
	if v != nil && y.Viol == nil {
		y.Viol = v
	}
	return y.Viol == nil
}

// Setup runs f as a setup step; a failure there is the library's refusing or crashing on what the harness holds valid.
func (y *Sys) Setup(id int, f func()) bool {
	ok := true
	y.Solo(nil, nil, func(t *sched.Task) {
		o := t.Step(id, f)
		if o.Panic != "" {
			y.V("setup-panic", "setup failed: %s (in %s)", o.Panic, o.Where)
			ok = false
		}
	})
	return ok && y.Viol == nil
}

// Tasks runs the plan's steps, each on its own task, in one simulation with preemption. do must wrap library calls in
// t.Step(s.ID, ...). Between steps the processor moves in an order drawn from the seed.
func (y *Sys) Tasks(nt int, pre []sched.Preempt, record bool, onSwitch func(step int, off int64, site int32), do func(t *sched.Task, s *run.Step)) bool {
	simmrand.Reset(int64(y.P.Seed))
	y.M = sched.New(y.P.Seed^y.EntSeed, pre, y.P.Ent)
	y.room()
	y.M.EntWin, y.M.BaseSeed = y.EntWin, y.P.Seed
	y.M.Record = record || y.Watch
	if onSwitch != nil {
		y.M.OnSwitch = func(_ *sched.Task, step int, off int64, site int32) { onSwitch(step, off, site) }
	}
	for k := 0; k < nt; k++ {
		k := k
		y.M.Task(fmt.Sprint("task", k), func(t *sched.Task) {
			for i := range y.P.Steps {
				s := &y.P.Steps[i]
				if s.T%nt != k {
					continue
				}
				if y.Viol != nil {
					return
				}
				if nt > 1 && !record {
					t.YieldTo(int(core.H(y.P.Seed, uint64(s.ID), 99) % uint64(nt)))
				}
				if y.Viol != nil {
					return
				}
				do(t, s)
				y.St.Steps++
			}
		})
	}
	v := run.RunSim(y.M, y.St)
	if v != nil && y.Viol == nil {
		y.Viol = v
	}
	return y.Viol == nil
}

// Serial runs the plan's steps one after the other on one task.
func (y *Sys) Serial(do func(t *sched.Task, s *run.Step)) bool {
	return y.Solo(y.P.Pre, y.P.Ent, func(t *sched.Task) {
		for i := range y.P.Steps {
			if y.Viol != nil {
				return
			}
			do(t, &y.P.Steps[i])
			y.St.Steps++
		}
	})
}

// HB hashes bytes.
func HB(b []byte) uint64 {
	h := uint64(len(b)) + 0x51ed
	var w uint64
	for i, x := range b {
		w = w<<8 | uint64(x)
		if i&7 == 7 {
			h = core.Mix(h ^ w)
			w = 0
		}
	}
	return core.Mix(h ^ w)
}

// HU hashes words.
func HU(h uint64, c []uint64) uint64 {
	h = core.Mix(h ^ uint64(len(c)))
	for _, x := range c {
		h = (h ^ x) * 0x9fb21c651e98df25
		h ^= h >> 29
	}
	return core.Mix(h)
}

func first(a, b int64) int64 {
	if a != 0 {
		return a
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// schedule fills p.Pre from recorded profiles if the plan asks for it.
func (y *Sys) schedule(nt int) {
	if y.P.Sched != 0 && y.P.Pre == nil {
		globals.Reset() // the run itself starts in a fresh process again
		y.P.Pre = sched.Schedule(core.NewRNG(y.P.Sched), y.M.Profiles, nt, y.P.Mean)
		if y.P.Pre == nil {
			y.P.Pre = []sched.Preempt{}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
