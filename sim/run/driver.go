package run

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"vsim/core"
)

// Known findings, read from the committed file.
type Known struct{ Prop, Class, Text string }

func LoadKnown(path string) (res []Known, err error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var k Known
		rest := strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		for _, f := range strings.SplitN(rest, " ", 3) {
			switch {
			case strings.HasPrefix(f, "property="):
				k.Prop = f[9:]
			case strings.HasPrefix(f, "class="):
				k.Class = f[6:]
			default:
				k.Text = f
			}
		}
		res = append(res, k)
	}
	return
}

func isKnown(ks []Known, prop, class string) bool {
	for _, k := range ks {
		if k.Prop == prop && k.Class == class {
			return true
		}
	}
	return false
}

type msg struct {
	T     string          `json:"t"` // start, done, viol, known, stats, fail
	I     int             `json:"i,omitempty"`
	Rep   *Replay         `json:"rep,omitempty"`
	Text  string          `json:"text,omitempty"`
	Stats json.RawMessage `json:"stats,omitempty"`
}

type statsWire struct {
	*Stats
	InterL  []uint64 `json:"interl"`
	StatesL []uint64 `json:"statesl"`
}

// safeExec runs a plan; harness panics come back as err.
func safeExec(pr *Prop, p *Plan, st *Stats) (v *Violation, err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(Harness); ok {
				err = fmt.Errorf("harness: %s", h.What)
			} else {
				err = fmt.Errorf("harness panic: %v\n%s", r, debug.Stack())
			}
		}
	}()
	return pr.Exec(p, st), nil
}

func limits() {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(300)
	lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	runtime.GOMAXPROCS(2)
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	first := fs.Int("first", 0, "")
	stride := fs.Int("stride", 1, "")
	n := fs.Int("n", 1, "")
	thorough := fs.Bool("thorough", false, "")
	deadline := fs.Int64("deadline", 0, "")
	known := fs.String("known", "", "")
	twice := fs.Int("twice", 8, "")
	kind := fs.String("kind", "", "")
	noshrink := fs.Bool("noshrink", false, "")
	_ = fs.Parse(args)
	limits()
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	send := func(m msg) { _ = enc.Encode(m); out.Flush() }
	pr := Props[*prop]
	var ks []Known
	if *known != "" {
		ks, _ = LoadKnown(*known)
	}
	st := NewStats()
	for k, i := 0, *first; i < *n; k, i = k+1, i+*stride {
		if *deadline > 0 && time.Now().Unix() >= *deadline {
			break
		}
		p := pr.PlanFor(*seed, i, *thorough)
		if *kind != "" && p.Kind != *kind {
			continue
		}
		send(msg{T: "start", I: i})
		v, err := safeExec(pr, p, st)
		if err != nil {
			send(msg{T: "fail", I: i, Text: err.Error()})
			os.Exit(3)
		}
		st.Runs++
		if v == nil && *twice > 0 && k%*twice == 0 {
			h := st.LogHash()
			s2 := NewStats()
			q := pr.PlanFor(*seed, i, *thorough)
			v2, err := safeExec(pr, q, s2)
			if err != nil || v2 != nil || s2.LogHash() != h {
				send(msg{T: "fail", I: i, Text: fmt.Sprintf("run %d is not deterministic: %v %v log %x vs %x", i, err, v2, h, s2.LogHash())})
				os.Exit(3)
			}
			st.Twice++
		}
		if v != nil {
			if isKnown(ks, pr.ID, v.Class) {
				st.Probes["known:"+v.Class]++
				send(msg{T: "known", I: i, Text: v.Class})
				continue
			}
			// the same seed must fail the same way again before it counts
			q := pr.PlanFor(*seed, i, *thorough)
			v2, err := safeExec(pr, q, NewStats())
			if err != nil || v2 == nil || v2.Class != v.Class {
				send(msg{T: "fail", I: i, Text: fmt.Sprintf("violation %v of run %d did not repeat: %v %v", v, i, v2, err)})
				os.Exit(3)
			}
			best, bv := p, v
			if !*noshrink {
				best, bv = Shrink(p, v, func(c *Plan) *Violation {
					w, err := safeExec(pr, c, NewStats())
					if err != nil {
						return nil
					}
					return w
				}, 20*time.Second)
			}
			send(msg{T: "viol", I: i, Rep: &Replay{Property: pr.ID, Seed: *seed, Index: i, Viol: bv, Plan: best}})
			break
		}
		send(msg{T: "done", I: i})
	}
	w := statsWire{Stats: st}
	for k := range st.Inter {
		w.InterL = append(w.InterL, k)
	}
	for k := range st.States {
		w.StatesL = append(w.StatesL, k)
	}
	st.Inter, st.States = nil, nil
	b, _ := json.Marshal(w)
	send(msg{T: "stats", Stats: b})
}

// replay runs one replay file; exit 1 and a line if it fails as recorded.
func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verbose := fs.Bool("v", false, "")
	_ = fs.Parse(args)
	limits()
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	st := NewStats()
	if *verbose {
		st.Trace = func(f string, a ...interface{}) { fmt.Printf("  "+f+"\n", a...) }
	}
	v, err := safeExec(Props[rep.Property], rep.Plan, st)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	if v == nil {
		fmt.Printf("REPLAY property=%s: no violation\n", rep.Property)
		os.Exit(0)
	}
	fmt.Printf("REPLAY property=%s class=%s\n%s\nlog=%x\n", rep.Property, v.Class, v.Detail, st.LogHash())
	if rep.Viol != nil && rep.Viol.Class != v.Class {
		os.Exit(4)
	}
	os.Exit(1)
}

type job struct {
	start int
	last  time.Time
	done  bool
}

func check(args []string) {
	t0 := time.Now()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	workers := fs.Int("workers", 8, "")
	n := fs.Int("n", 0, "override run count")
	wall := fs.Int("wall", 0, "wall cap in seconds")
	evidence := fs.String("evidence", "", "")
	repdir := fs.String("replays", "", "")
	knownf := fs.String("known", "", "")
	info := fs.String("info", "", "")
	kind := fs.String("kind", "", "")
	_ = fs.Parse(args)
	pr := Props[*prop]
	if pr == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(3)
	}
	thorough := *tier == "thorough"
	total := pr.Quick
	limit := 150 * time.Second
	if thorough {
		total = pr.Thorough
		limit = 800 * time.Second
	}
	if *n > 0 {
		total = *n
	}
	if *wall > 0 {
		limit = time.Duration(*wall) * time.Second
	}
	var ks []Known
	if *knownf != "" {
		var err error
		if ks, err = LoadKnown(*knownf); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
	}
	fmt.Printf("property=%s tier=%s VERIF_SEED=%d runs=%d workers=%d\n", pr.ID, *tier, *seed, total, *workers)
	self, _ := os.Executable()
	var mu sync.Mutex
	var viols []*Replay
	var fails []string
	var crashes []int
	sum := NewStats()
	knownHit := map[string]int{}
	var cmds []*exec.Cmd
	jobs := make([]*job, *workers)
	var wg sync.WaitGroup
	deadline := t0.Add(limit).Unix()
	stop := func() {
		for i, c := range cmds {
			if !jobs[i].done && c.Process != nil {
				_ = c.Process.Kill()
			}
		}
	}
	stopping := false
	for w := 0; w < *workers; w++ {
		a := []string{"worker", "-prop", pr.ID, "-seed", fmt.Sprint(*seed), "-first", fmt.Sprint(w), "-stride", fmt.Sprint(*workers),
			"-n", fmt.Sprint(total), "-deadline", fmt.Sprint(deadline), "-known", *knownf, "-kind", *kind}
		if thorough {
			a = append(a, "-thorough")
		}
		c := exec.Command(self, a...)
		var eb bytes.Buffer
		c.Stderr = &eb
		so, err := c.StdoutPipe()
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		if err := c.Start(); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		j := &job{start: -1, last: time.Now()}
		mu.Lock()
		jobs[w] = j
		cmds = append(cmds, c)
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sc := bufio.NewScanner(so)
			sc.Buffer(make([]byte, 1<<20), 1<<30)
			got := false
			for sc.Scan() {
				var m msg
				if json.Unmarshal(sc.Bytes(), &m) != nil {
					continue
				}
				mu.Lock()
				j.last = time.Now()
				switch m.T {
				case "start":
					j.start = m.I
				case "done":
					j.start = -1
				case "known":
					j.start = -1
					knownHit[m.Text]++
				case "viol":
					viols = append(viols, m.Rep)
					stopping = true
				case "fail":
					fails = append(fails, m.Text)
					got = true
				case "stats":
					var sw statsWire
					sw.Stats = NewStats()
					if err := json.Unmarshal(m.Stats, &sw); err == nil {
						for _, k := range sw.InterL {
							sum.Inter[k] = true
						}
						for _, k := range sw.StatesL {
							sum.States[k] = true
						}
						sum.Merge(sw.Stats)
					}
					got = true
				}
				mu.Unlock()
			}
			err := c.Wait()
			mu.Lock()
			j.done = true
			if err != nil && !got && !stopping {
				if j.start >= 0 {
					crashes = append(crashes, j.start)
					fmt.Printf("worker died in run %d: %v\n%s\n", j.start, err, head(eb.String(), 800))
				} else {
					fails = append(fails, fmt.Sprintf("worker died: %v %s", err, head(eb.String(), 800)))
				}
			}
			mu.Unlock()
		}()
	}
	allDone := make(chan bool)
	go func() { wg.Wait(); close(allDone) }()
	grace := time.Time{}
loop:
	for {
		select {
		case <-allDone:
			break loop
		case <-time.After(200 * time.Millisecond):
		}
		mu.Lock()
		if stopping && grace.IsZero() {
			grace = time.Now().Add(500 * time.Millisecond)
		}
		if !grace.IsZero() && time.Now().After(grace) {
			stop()
		}
		for i, j := range jobs {
			if !j.done && time.Since(j.last) > 300*time.Second {
				fails = append(fails, fmt.Sprintf("worker %d made no progress for 300 s in run %d", i, j.start))
				stopping = true
				stop()
			}
		}
		mu.Unlock()
	}
	// a process that died is tried again alone: only a repeatable death counts
	for _, idx := range crashes {
		rep, err := confirmCrash(self, pr, *seed, idx, thorough, *repdir)
		if err != nil {
			fails = append(fails, err.Error())
			continue
		}
		if isKnown(ks, pr.ID, rep.Viol.Class) {
			knownHit[rep.Viol.Class]++
			continue
		}
		viols = append(viols, rep)
		break
	}
	for _, k := range ks {
		if k.Prop == pr.ID {
			fmt.Printf("KNOWN-FINDING: property=%s class=%s %s (seen in %d runs)\n", pr.ID, k.Class, k.Text, knownHit[k.Class])
		}
	}
	code := 0
	if len(viols) > 0 {
		sort.Slice(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
		v := viols[0]
		path := filepath.Join(*repdir, fmt.Sprintf("%s-%d.json", pr.ID, v.Index))
		_ = os.MkdirAll(*repdir, 0o755)
		if err := v.Write(path); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		// in a fresh process, the file must reproduce the failure
		c := exec.Command(self, "replay", path)
		b, _ := c.CombinedOutput()
		ec := c.ProcessState.ExitCode()
		ok := ec == 1
		if v.Crash {
			ok = ec != 0 && ec != 1 && ec != 3
		}
		fmt.Printf("class=%s run=%d seed=%d steps=%d preempts=%d entropy_faults=%d\n%s\n", v.Viol.Class, v.Index, v.Plan.Seed, len(v.Plan.Steps), len(v.Plan.Pre), len(v.Plan.Ent), head(v.Viol.Detail, 4000))
		if !ok {
			fmt.Printf("replay in a fresh process did not reproduce (exit %d): %s\n", ec, head(string(b), 2000))
			code = 3
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, path)
			code = 1
		}
	} else if len(fails) > 0 {
		for _, f := range fails {
			fmt.Println("ERROR:", f)
		}
		code = 3
	} else if sum.Runs < int64(total/10) && *kind == "" {
		fmt.Printf("ERROR: only %d of %d runs done\n", sum.Runs, total)
		code = 3
	}
	w := time.Since(t0).Seconds()
	if *evidence != "" {
		writeEvidence(*evidence, pr, *tier, *seed, sum, w, len(viols), knownHit, *info)
	}
	fmt.Printf("runs=%d yields=%d switches=%d interleavings=%d states=%d checks=%d wall=%.1fs exit=%d\n", sum.Runs, sum.Yields, sum.Switches, len(sum.Inter), len(sum.States), sum.Evals, w, code)
	if os.Getenv("VSIM_PROBES") != "" {
		b, _ := json.MarshalIndent(map[string]interface{}{"faults": sum.Faults, "probes": sum.Probes}, "", " ")
		fmt.Println(string(b))
	}
	os.Exit(code)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// one executes a single plan file and exits 0/1; used to try process-killing plans.
func confirmCrash(self string, pr *Prop, seed uint64, idx int, thorough bool, dir string) (*Replay, error) {
	p := pr.PlanFor(seed, idx, thorough)
	_ = os.MkdirAll(dir, 0o755)
	tmp := filepath.Join(dir, fmt.Sprintf("%s-%d.crash.json", pr.ID, idx))
	defer os.Remove(tmp)
	test := func(q *Plan) *Violation {
		r := &Replay{Property: pr.ID, Seed: seed, Index: idx, Plan: q}
		if r.Write(tmp) != nil {
			return nil
		}
		c := exec.Command(self, "replay", tmp)
		b, err := c.CombinedOutput()
		if err == nil {
			return nil
		}
		s := string(b)
		for _, k := range []string{"checkptr:", "found bad pointer", "unexpected fault address", "SIGSEGV", "stack exceeds", "out of memory", "cannot allocate memory", "concurrent map", "all goroutines are asleep"} {
			if strings.Contains(s, k) {
				return Viol("process-death/"+strings.ReplaceAll(strings.TrimSuffix(k, ":"), " ", "-"), "the process dies: %s", head(s, 1500))
			}
		}
		return nil
	}
	v := test(p)
	if v == nil {
		return nil, fmt.Errorf("worker death in run %d did not repeat alone", idx)
	}
	best, bv := Shrink(p, v, test, 30*time.Second)
	return &Replay{Property: pr.ID, Seed: seed, Index: idx, Viol: bv, Plan: best, Crash: true}, nil
}

func writeEvidence(path string, pr *Prop, tier string, seed uint64, s *Stats, wall float64, viols int, known map[string]int, info string) {
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	var samples []interface{}
	for i := 0; i < 3; i++ {
		p := pr.PlanFor(seed, i, tier == "thorough")
		if len(p.Steps) > 12 {
			p.Steps = p.Steps[:12]
		}
		samples = append(samples, p)
	}
	distinct := len(s.Inter)
	if len(s.States) > distinct {
		distinct = len(s.States)
	}
	if int64(distinct) > s.Evals {
		distinct = int(s.Evals)
	}
	kinds := map[string]int{}
	for _, w := range pr.Worlds {
		kinds[w.Kind] = w.Weight
	}
	cov := map[string]interface{}{
		"evaluations":            s.Evals,
		"distinct_nontrivial":    distinct,
		"rule":                   pr.Rule,
		"samples":                samples,
		"simulated_runs":         s.Runs,
		"runs_per_hour":          int64(float64(s.Runs) / wall * 3600),
		"seeds_per_hour":         int64(float64(s.Runs) / wall * 3600),
		"simulated_steps":        s.Steps,
		"yield_points_executed":  s.Yields,
		"task_switches":          s.Switches,
		"entropy_requests":       s.Entropy,
		"simulated_time_ticks":   s.SimTime,
		"distinct_interleavings": len(s.Inter),
		"distinct_states":        len(s.States),
		"faults_injected":        s.Faults,
		"probes":                 s.Probes,
		"runs_executed_twice_with_equal_event_log": s.Twice,
		"worlds":          kinds,
		"components_real": pr.Real,
		"components_stub": pr.Stub,
		"known_findings":  known,
		"instrumentation": info,
	}
	e := map[string]interface{}{"property": pr.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall,
		"assumptions": pr.Assume, "violations": viols}
	b, _ := json.MarshalIndent(e, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
}

// plan prints the plan of one run.
func plan(args []string) {
	fs := flag.NewFlagSet("plan", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	idx := fs.Int("i", 0, "")
	thorough := fs.Bool("thorough", false, "")
	_ = fs.Parse(args)
	pr := Props[*prop]
	r := &Replay{Property: *prop, Seed: *seed, Index: *idx, Plan: pr.PlanFor(*seed, *idx, *thorough)}
	b, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(b))
}

// logs prints the event-log hash of each run, to compare across processes.
func logs(args []string) {
	fs := flag.NewFlagSet("logs", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	first := fs.Int("first", 0, "")
	n := fs.Int("n", 50, "")
	_ = fs.Parse(args)
	limits()
	pr := Props[*prop]
	for i := *first; i < *first+*n; i++ {
		st := NewStats()
		v, err := safeExec(pr, pr.PlanFor(*seed, i, false), st)
		fmt.Printf("%s %d %x %v %v\n", *prop, i, st.LogHash(), v, err)
	}
}

// Main is the command.
func Main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vsim check|worker|replay|plan|logs|list")
		os.Exit(3)
	}
	_ = core.Mix
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "plan":
		plan(os.Args[2:])
	case "logs":
		logs(os.Args[2:])
	case "list":
		for _, id := range IDs() {
			fmt.Println(id)
		}
	default:
		os.Exit(3)
	}
}
