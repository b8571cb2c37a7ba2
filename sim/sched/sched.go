// Package sched runs simulated tasks: goroutines of which exactly one runs at any time, parked and released at the
// yield points of the instrumented library. Which one runs is decided by the plan alone.
package sched

import (
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"

	"vsim/core"
	"vsim/hook"
)

const never = int64(1) << 61

// Preempt takes the processor from the task executing step Step after Off yield points of that step.
type Preempt struct {
	Step int   `json:"step"`
	Off  int64 `json:"off"`
	To   int   `json:"to"`
}

// EntFault makes the At-th entropy request of step Step fail (Short<0) or deliver at most Short bytes.
type EntFault struct {
	Step   int  `json:"step"`
	At     int  `json:"at"`
	Short  int  `json:"short"`
	Sticky bool `json:"sticky,omitempty"`
}

// Profile is what recording a step yields: its number of yield points and, per site, a sample of offsets.
type Profile struct {
	Len   int64
	Sites map[int32]*SiteOcc
}
type SiteOcc struct {
	First  int64
	Sample int64
	N      int64
}

// Budget is panicked when a step exceeds its yield budget.
type Budget struct{ Site int32 }

// Deadlock is reported when no task can run.
type Deadlock struct{ What string }

// EntropyErr is the simulated device's error.
var EntropyErr = errors.New("simulated entropy device failure")

type Task struct {
	ID     int
	Name   string
	s      *Sim
	resume chan struct{}
	done   bool
	cond   func() bool
	what   string

	inStep   bool
	paused   int // >0: harness code, no yields
	step     int
	off      int64
	segment  int64 // value C was armed with
	pre      []Preempt
	pi       int
	budget   int64
	ent      *core.RNG
	entBase  *core.RNG // what the device gives in the run this one is compared with
	entReads int
	entFail  *EntFault
	mapRng   *core.RNG
	prof     *Profile
	child    bool
	rnd      *core.RNG
	nextRnd  int64
}

type Sim struct {
	Seed       uint64
	tasks      []*Task
	cur        *Task
	over       chan struct{}
	preempts   map[int][]Preempt
	faults     map[int][]*EntFault
	Record     bool
	Profiles   map[int]*Profile
	StepBudget int64
	// With EntWin, long entropy requests differ from those of the run with seed BaseSeed in a window of 16 bytes only.
	EntWin   int
	BaseSeed uint64
	// OnSwitch is called, in harness mode, each time the processor is taken away inside a step.
	OnSwitch func(from *Task, step int, off int64, site int32)
	// OnPoint, with Points, is called at observation offsets instead of switching when To<0.
	Deadlock *Deadlock
	Err      error

	Yields    int64
	Switches  int64
	Entropy   int64
	EntBytes  int64
	EntFaults map[string]int64
	InterHash uint64
	SiteSeen  map[int32]bool
	loose     *core.RNG
}

func New(seed uint64, pre []Preempt, faults []EntFault) *Sim {
	s := &Sim{Seed: seed, preempts: map[int][]Preempt{}, faults: map[int][]*EntFault{}, Profiles: map[int]*Profile{},
		StepBudget: 60_000_000, loose: core.NewRNG(seed ^ 0xabcdef), EntFaults: map[string]int64{}, over: make(chan struct{}), SiteSeen: map[int32]bool{}}
	for _, p := range pre {
		s.preempts[p.Step] = append(s.preempts[p.Step], p)
	}
	for k := range s.preempts {
		l := s.preempts[k]
		sort.SliceStable(l, func(i, j int) bool { return l[i].Off < l[j].Off })
	}
	for i := range faults {
		f := faults[i]
		s.faults[f.Step] = append(s.faults[f.Step], &f)
	}
	return s
}

// Cur is the running simulation, nil outside.
var Cur *Sim

func (s *Sim) Task(name string, body func(t *Task)) *Task {
	t := &Task{ID: len(s.tasks), Name: name, s: s, resume: make(chan struct{}, 1)}
	s.tasks = append(s.tasks, t)
	go func() {
		<-t.resume
		defer s.finish(t)
		defer func() {
			if r := recover(); r != nil {
				s.Err = fmt.Errorf("harness panic in task %s: %v\n%s", t.Name, r, Stack())
			}
		}()
		body(t)
	}()
	return t
}

// Stack returns the current stack, trimmed.
func Stack() string {
	b := make([]byte, 1<<14)
	b = b[:runtime.Stack(b, false)]
	return string(b)
}

// Run executes all tasks to completion.
func (s *Sim) Run() {
	if len(s.tasks) == 0 {
		return
	}
	prev := Cur
	Cur = s
	hook.Slow = s.slow
	hook.Entropy = s.entropy
	hook.MapOrder = s.mapOrder
	hook.Go = s.spawn
	hook.Wait = s.wait
	hook.C = never
	s.cur = s.tasks[0]
	s.cur.resume <- struct{}{}
	<-s.over
	hook.C = never
	Cur = prev
}

func (s *Sim) pick(after int) *Task {
	n := len(s.tasks)
	for k := 1; k <= n; k++ {
		t := s.tasks[(after+k)%n]
		if t.done {
			continue
		}
		if t.cond != nil && !t.cond() {
			continue
		}
		return t
	}
	return nil
}

func (s *Sim) finish(t *Task) {
	t.done = true
	t.inStep = false
	hook.C = never
	n := s.pick(t.ID)
	if n == nil {
		for _, o := range s.tasks {
			if !o.done {
				s.Deadlock = &Deadlock{o.Name + " waits for " + o.what}
			}
		}
		close(s.over)
		return
	}
	s.switchTo(n)
}

func (s *Sim) switchTo(n *Task) {
	n.cond = nil
	s.cur = n
	s.Switches++
	n.resume <- struct{}{}
}

// park hands the processor to n and waits for it to come back.
func (t *Task) park(n *Task) {
	if n == t {
		return
	}
	t.s.switchTo(n)
	<-t.resume
	t.arm()
}

func (t *Task) arm() {
	if !t.inStep || t.paused > 0 {
		hook.C = never
		t.segment = never
		return
	}
	next := t.budget
	if t.pi < len(t.pre) && t.pre[t.pi].Off < next {
		next = t.pre[t.pi].Off
	}
	if t.child && t.nextRnd < next {
		next = t.nextRnd
	}
	if t.prof != nil {
		next = t.off + 1
	}
	d := next - t.off - 1
	if d < 0 {
		d = 0
	}
	hook.C = d
	t.segment = d
}

// account adds the yields consumed since arm; called with the processor held.
func (t *Task) account() {
	if t.inStep && t.paused == 0 {
		d := t.segment - hook.C
		t.off += d
		t.s.Yields += d
		t.segment = hook.C
	}
}

func (s *Sim) slow(site int32) {
	t := s.cur
	if !t.inStep || t.paused > 0 {
		hook.C = never
		t.segment = never
		return
	}
	t.account()
	if t.prof != nil {
		t.prof.Len = t.off
		o := t.prof.Sites[site]
		if o == nil {
			o = &SiteOcc{First: t.off}
			t.prof.Sites[site] = o
		}
		o.N++
		if core.Mix(uint64(t.off))%uint64(o.N) == 0 {
			o.Sample = t.off
		}
	}
	if t.off >= t.budget {
		t.budget = never
		t.arm()
		panic(Budget{site})
	}
	sw := -1
	for t.pi < len(t.pre) && t.pre[t.pi].Off <= t.off {
		sw = t.pre[t.pi].To
		t.pi++
	}
	if t.child && t.off >= t.nextRnd {
		t.nextRnd = t.off + 1 + int64(t.rnd.N(200))
		sw = t.rnd.N(len(s.tasks))
	}
	if sw >= 0 {
		if s.OnSwitch != nil {
			t.paused++
			hook.C = never
			s.OnSwitch(t, t.step, t.off, site)
			t.paused--
		}
		n := s.pick((sw%len(s.tasks) + len(s.tasks) - 1) % len(s.tasks))
		if n != nil && n != t {
			s.InterHash = core.H(s.InterHash, uint64(t.ID), uint64(site), uint64(n.ID), uint64(t.step))
			t.park(n)
			return
		}
	}
	t.arm()
}

func (s *Sim) wait(what string, cond func() bool) {
	t := s.cur
	t.account()
	t.what = what
	for !cond() {
		t.cond = cond
		n := s.pick(t.ID)
		if n == nil {
			s.Deadlock = &Deadlock{t.Name + " waits for " + what}
			close(s.over)
			select {} // never resumed: the run is over
		}
		if n == t {
			break
		}
		s.switchTo(n)
		<-t.resume
	}
	t.cond = nil
	t.arm()
}

func (s *Sim) spawn(f func()) {
	p := s.cur
	p.account()
	id := len(s.tasks)
	c := s.Task(fmt.Sprintf("%s.go%d", p.Name, id), func(t *Task) {
		t.inStep, t.child = true, true
		t.arm()
		func() {
			defer func() {
				t.account()
				t.inStep = false
				hook.C = never
				if r := recover(); r != nil {
					s.Err = fmt.Errorf("panic in library goroutine: %v", r)
				}
			}()
			f()
		}()
	})
	c.step = p.step
	c.budget = s.StepBudget
	c.ent = core.NewRNG(core.H(s.Seed, uint64(p.step), 77, uint64(id)))
	c.mapRng = core.NewRNG(core.H(s.Seed, uint64(p.step), 78, uint64(id)))
	c.rnd = core.NewRNG(core.H(s.Seed, uint64(p.step), 79, uint64(id)))
	c.nextRnd = 1 + int64(c.rnd.N(200))
	p.arm()
}

func (s *Sim) entropy(b []byte) (int, error) {
	t := s.cur
	if t == nil || t.ent == nil {
		s.loose.Fill(b)
		return len(b), nil
	}
	s.Entropy++
	t.entReads++
	for _, f := range s.faults[t.step] {
		if !t.inStep {
			break
		}
		if f.At == t.entReads-1 || (f.Sticky && t.entReads-1 > f.At) {
			if f.Short < 0 {
				s.EntFaults["entropy_error"]++
				return 0, EntropyErr
			}
			n := f.Short
			if n >= len(b) {
				n = len(b) - 1
			}
			if n < 0 {
				n = 0
			}
			if f.Sticky {
				s.EntFaults["entropy_short_then_error"]++
				t.fill(b[:n])
				return n, EntropyErr
			}
			s.EntFaults["entropy_short"]++
			if n == 0 {
				n = 1
			}
			if n > len(b) {
				n = len(b)
			}
			t.fill(b[:n])
			s.EntBytes += int64(n)
			return n, nil
		}
	}
	t.fill(b)
	s.EntBytes += int64(len(b))
	return len(b), nil
}

// fill serves bytes of the step's entropy stream.
func (t *Task) fill(b []byte) {
	t.ent.Fill(b)
	w := t.s.EntWin
	if w == 0 || t.entBase == nil {
		return
	}
	c := make([]byte, len(b))
	t.entBase.Fill(c)
	if len(b) < 32 {
		return
	}
	lo := (w - 1) % (len(b) - 15)
	for i := range b {
		if i < lo || i >= lo+16 {
			b[i] = c[i]
		}
	}
}

func (s *Sim) mapOrder(n int) []int {
	t := s.cur
	if t == nil || t.mapRng == nil {
		return nil
	}
	return t.mapRng.Perm(n)
}

// Outcome of a step.
type Outcome struct {
	Panic  string // "" if the call returned
	Budget bool
	Val    interface{}
	Where  string // innermost library frame of a panic
	Yields int64
}

// Step runs f as one library call sequence of this task: yields are counted, entropy is the step's own stream, library
// panics are caught.
func (t *Task) Step(id int, f func()) (o Outcome) {
	s := t.s
	t.inStep = true
	t.paused = 0
	t.step = id
	t.off = 0
	t.pre = s.preempts[id]
	t.pi = 0
	t.budget = s.StepBudget
	t.ent = core.NewRNG(core.H(s.Seed, uint64(id), 1))
	t.entBase = core.NewRNG(core.H(s.BaseSeed, uint64(id), 1))
	t.mapRng = core.NewRNG(core.H(s.Seed, uint64(id), 2))
	t.entReads = 0
	t.prof = nil
	if s.Record {
		t.prof = &Profile{Sites: map[int32]*SiteOcc{}}
	}
	t.arm()
	defer func() {
		t.account()
		o.Yields = t.off
		t.inStep = false
		hook.C = never
		t.segment = never
		if t.prof != nil {
			t.prof.Len = t.off
			s.Profiles[id] = t.prof
			t.prof = nil
		}
		// randomness used between steps is the oracle's own
		t.ent = core.NewRNG(core.H(s.Seed, uint64(id), 3))
		if r := recover(); r != nil {
			if _, ok := r.(Budget); ok {
				o.Budget = true
				o.Panic = "no progress: yield budget exceeded"
				return
			}
			if _, ok := r.(interface{ HarnessPanic() }); ok {
				s.Err = fmt.Errorf("%v", r)
			}
			o.Val = r
			o.Panic = fmt.Sprint(r)
			if o.Panic == "" {
				o.Panic = "panic"
			}
			o.Where = where()
		}
	}()
	f()
	return
}

func where() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "fast-ksw/") {
			return f.Function
		}
		if !more {
			return ""
		}
	}
}

// IsRuntime reports whether the panic was raised by the Go runtime (index out of range, nil dereference, ...).
func (o Outcome) IsRuntime() bool {
	_, ok := o.Val.(runtime.Error)
	return ok
}

// Pause runs harness code inside a step, without yields.
func (t *Task) Pause(f func()) {
	t.account()
	t.paused++
	hook.C = never
	f()
	t.paused--
	t.arm()
}

// Pause runs f without yields if a step is running.
func Pause(f func()) {
	if Cur == nil || Cur.cur == nil || !Cur.cur.inStep {
		f()
		return
	}
	Cur.cur.Pause(f)
}

// Yield lets another task run between steps: the plan's preempts with Off 0 at the next step do the same; used by worlds.
func (t *Task) YieldTo(k int) {
	s := t.s
	n := s.pick((k%len(s.tasks) + len(s.tasks) - 1) % len(s.tasks))
	if n != nil && n != t {
		t.park(n)
	}
}

// Schedule draws preempts for the recorded steps: a mix of uniformly placed ones and ones biased to rarely executed sites.
func Schedule(r *core.RNG, profs map[int]*Profile, tasks int, mean float64) []Preempt {
	ids := make([]int, 0, len(profs))
	for k := range profs {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	var res []Preempt
	for _, id := range ids {
		p := profs[id]
		if p.Len == 0 {
			continue
		}
		n := 0
		for x := mean; x > 0; x-- {
			if x >= 1 || r.P(x) {
				n += r.N(3)
			}
		}
		var sites []int32
		for k := range p.Sites {
			sites = append(sites, k)
		}
		sort.Slice(sites, func(i, j int) bool { return sites[i] < sites[j] })
		// sites next to the state that calls keep: the state first, then one of its sites
		var hot [][]int32
		for _, g := range hook.Hot {
			var l []int32
			for _, x := range g {
				if p.Sites[x] != nil {
					l = append(l, x)
				}
			}
			if l != nil {
				hot = append(hot, l)
			}
		}
		for i := 0; i < n; i++ {
			var off int64
			switch r.N(5) {
			case 0:
				off = 1 + int64(r.U64()%uint64(p.Len))
			case 1, 2:
				o := p.Sites[sites[r.N(len(sites))]]
				off = o.First
				if r.P(0.5) {
					off = o.Sample
				}
			case 3:
				l := sites
				if len(hot) > 0 {
					l = hot[r.N(len(hot))]
				}
				o := p.Sites[l[r.N(len(l))]]
				off = o.First
				if r.P(0.5) {
					off = o.Sample
				}
			default:
				// just after a random point, twice in a row: ping-pong around one place
				off = 1 + int64(r.U64()%uint64(p.Len))
				res = append(res, Preempt{id, off + 1 + int64(r.N(4)), r.N(tasks)})
			}
			if off < 1 {
				off = 1
			}
			res = append(res, Preempt{id, off, r.N(tasks)})
		}
	}
	return res
}

// Novel draws preempts at sites that a step reached in one run (got) but not in another (solo); nil if there are none.
func Novel(r *core.RNG, solo, got map[int]*Profile, tasks int) (res []Preempt) {
	var ids []int
	for id := range got {
		if solo[id] != nil {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var cand []Preempt
	for _, id := range ids {
		var sites []int32
		for x := range got[id].Sites {
			if solo[id].Sites[x] == nil {
				sites = append(sites, x)
			}
		}
		sort.Slice(sites, func(i, j int) bool { return sites[i] < sites[j] })
		for _, x := range sites {
			cand = append(cand, Preempt{Step: id, Off: got[id].Sites[x].First})
		}
	}
	if len(cand) == 0 {
		return nil
	}
	for n := 1 + r.N(2); n > 0; n-- {
		c := cand[r.N(len(cand))]
		c.To = r.N(tasks)
		res = append(res, c)
	}
	return
}
