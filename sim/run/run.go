// Package run drives simulated runs: plans, statistics, search, shrinking, reporting.
package run

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"

	"vsim/core"
	"vsim/globals"
	"vsim/sched"
)

// Step is one scripted action. ID is stable under shrinking: randomness, preempts and faults are keyed by it.
type Step struct {
	ID int       `json:"id"`
	T  int       `json:"t,omitempty"`
	Op string    `json:"op"`
	A  []int64   `json:"a,omitempty"`
	F  []float64 `json:"f,omitempty"`
	S  string    `json:"s,omitempty"`
}

// Arg returns A[i] or 0.
func (s *Step) Arg(i int) int64 {
	if i < len(s.A) {
		return s.A[i]
	}
	return 0
}

// Mod returns A[i] reduced into [0,n).
func (s *Step) Mod(i, n int) int {
	if n <= 0 {
		return 0
	}
	v := s.Arg(i) % int64(n)
	if v < 0 {
		v += int64(n)
	}
	return int(v)
}
func (s *Step) Fl(i int) float64 {
	if i < len(s.F) {
		return s.F[i]
	}
	return 0
}

// Plan decides one run completely.
type Plan struct {
	Prop  string           `json:"prop"`
	Kind  string           `json:"kind"`
	Seed  uint64           `json:"seed"`
	P     map[string]int64 `json:"p,omitempty"`
	Steps []Step           `json:"steps"`
	Pre   []sched.Preempt  `json:"preempts,omitempty"`
	Ent   []sched.EntFault `json:"entropy_faults,omitempty"`
	// Sched, if not 0 and Pre is empty, makes Exec draw the preempts from recorded profiles (and fill Pre).
	Sched uint64  `json:"sched,omitempty"`
	Mean  float64 `json:"mean,omitempty"`
}

func (p *Plan) Clone() *Plan {
	b, _ := json.Marshal(p)
	q := new(Plan)
	_ = json.Unmarshal(b, q)
	return q
}
func (p *Plan) Get(k string) int { return int(p.P[k]) }
func (p *Plan) Set(k string, v int) {
	if p.P == nil {
		p.P = map[string]int64{}
	}
	p.P[k] = int64(v)
}
func (p *Plan) Add(t int, op string, a ...int64) *Step {
	p.Steps = append(p.Steps, Step{ID: len(p.Steps), T: t, Op: op, A: a})
	return &p.Steps[len(p.Steps)-1]
}

// Violation of the property. Class identifies the kind of failure; Detail describes this one.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func Viol(class, format string, a ...interface{}) *Violation {
	return &Violation{class, fmt.Sprintf(format, a...)}
}

// Harness is panicked on harness trouble.
type Harness struct{ What string }

// HarnessPanic marks the panic for the scheduler, which must not take it for the library's.
func (Harness) HarnessPanic() {}

func Fail(format string, a ...interface{}) { panic(Harness{fmt.Sprintf(format, a...)}) }

// World is one kind of simulated system.
type World struct {
	Kind   string
	Weight int
	Gen    func(p *Plan, r *core.RNG, thorough bool)
	Exec   func(p *Plan, st *Stats) *Violation
}

// Prop is a checked property.
type Prop struct {
	ID     string
	Worlds []*World
	// Quick and Thorough are run counts.
	Quick, Thorough int
	Rule            string
	Real, Stub      []string
	Assume          []string
}

var Props = map[string]*Prop{}

func Register(p *Prop) { Props[p.ID] = p }
func IDs() []string {
	var r []string
	for k := range Props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// PlanFor makes the plan of run idx.
func (pr *Prop) PlanFor(vseed uint64, idx int, thorough bool) *Plan {
	tot := 0
	for _, w := range pr.Worlds {
		tot += w.Weight
	}
	// every block of tot consecutive runs covers all kinds by weight, from a shuffled start, so that no worker gets
	// only the slow ones
	k := int((uint64(idx) + core.H(uint64(idx/tot), 77)) % uint64(tot))
	var w *World
	for _, w = range pr.Worlds {
		if k < w.Weight {
			break
		}
		k -= w.Weight
	}
	seed := core.H(vseed, core.HS(pr.ID), uint64(idx))
	p := &Plan{Prop: pr.ID, Kind: w.Kind, Seed: seed, P: map[string]int64{}}
	w.Gen(p, core.NewRNG(core.H(seed, 1)), thorough)
	return p
}

func (pr *Prop) World(kind string) *World {
	for _, w := range pr.Worlds {
		if w.Kind == kind {
			return w
		}
	}
	return nil
}

// Exec runs one plan.
func (pr *Prop) Exec(p *Plan, st *Stats) (v *Violation) {
	w := pr.World(p.Kind)
	if w == nil {
		Fail("no world %s/%s", pr.ID, p.Kind)
	}
	st.logH = core.H(p.Seed)
	globals.Reset()
	return w.Exec(p, st)
}

// Stats of a batch of runs.
type Stats struct {
	Runs     int64            `json:"runs"`
	Steps    int64            `json:"steps"`
	Yields   int64            `json:"yields"`
	Switches int64            `json:"switches"`
	SimTime  int64            `json:"sim_time"`
	Evals    int64            `json:"evals"`
	Entropy  int64            `json:"entropy"`
	Twice    int64            `json:"twice"`
	Faults   map[string]int64 `json:"faults"`
	Probes   map[string]int64 `json:"probes"`
	Inter    map[uint64]bool  `json:"inter"`
	States   map[uint64]bool  `json:"states"`
	Sites    map[int32]bool   `json:"sites"`
	logH     uint64
	Quiet    bool                                  `json:"-"`
	Trace    func(format string, a ...interface{}) `json:"-"`
}

func NewStats() *Stats {
	return &Stats{Faults: map[string]int64{}, Probes: map[string]int64{}, Inter: map[uint64]bool{}, States: map[uint64]bool{}, Sites: map[int32]bool{}}
}
func (s *Stats) Log(xs ...uint64) {
	for _, x := range xs {
		s.logH = core.H(s.logH, x)
	}
}
func (s *Stats) LogHash() uint64                   { return s.logH }
func (s *Stats) Fault(k string)                    { s.Faults[k]++ }
func (s *Stats) Probe(k string)                    { s.Probes[k]++ }
func (s *Stats) State(xs ...uint64)                { s.States[core.H(xs...)] = true }
func (s *Stats) StateS(f string, a ...interface{}) { s.States[core.HS(fmt.Sprintf(f, a...))] = true }
func (s *Stats) T(format string, a ...interface{}) {
	if s.Trace != nil {
		s.Trace(format, a...)
	}
}

// AddSim folds a finished simulation in.
func (s *Stats) AddSim(m *sched.Sim) {
	s.Yields += m.Yields
	s.Switches += m.Switches
	s.Entropy += m.Entropy
	for k, v := range m.EntFaults {
		s.Faults[k] += v
	}
	if m.InterHash != 0 {
		s.Inter[m.InterHash] = true
	}
	s.Log(uint64(m.Yields), uint64(m.Switches), uint64(m.Entropy), m.InterHash)
}

func (s *Stats) Merge(o *Stats) {
	s.Runs += o.Runs
	s.Steps += o.Steps
	s.Yields += o.Yields
	s.Switches += o.Switches
	s.SimTime += o.SimTime
	s.Evals += o.Evals
	s.Entropy += o.Entropy
	s.Twice += o.Twice
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
	for k := range o.Inter {
		s.Inter[k] = true
	}
	for k := range o.States {
		s.States[k] = true
	}
}

// RunSim executes a simulation and turns harness trouble into a Harness panic and deadlocks into a violation.
func RunSim(m *sched.Sim, st *Stats) *Violation {
	m.Run()
	st.AddSim(m)
	if m.Err != nil {
		Fail("%v", m.Err)
	}
	if m.Deadlock != nil {
		return Viol("deadlock", "no task can run: %s", m.Deadlock.What)
	}
	return nil
}

// Replay is the replay file.
type Replay struct {
	Property string     `json:"property"`
	Seed     uint64     `json:"verif_seed"`
	Index    int        `json:"run_index"`
	Viol     *Violation `json:"violation"`
	Plan     *Plan      `json:"plan"`
	Crash    bool       `json:"process_crash,omitempty"`
	Note     string     `json:"note,omitempty"`
}

func (r *Replay) Write(path string) error {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
