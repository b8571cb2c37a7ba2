package worlds

import (
	"fmt"
	"math"
	"math/bits"

	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
	"vsim/lab"
	"vsim/run"
	"vsim/sched"
)

// Samplers are fed by a simulated byte source that misbehaves: it sticks at a value, repeats blocks, alternates, and
// recovers after a planned number of requests. The library's samplers are long-lived and share the source.

func init() {
	run.Register(&run.Prop{
		ID: "C08", Quick: 160000, Thorough: 2000000,
		Worlds: []*run.World{
			{Kind: "stuck", Weight: 5, Gen: genStuck, Exec: execStuck},
			{Kind: "spread", Weight: 1, Gen: genSpread, Exec: execSpread},
		},
		Rule:   "one evaluation is one check of a drawn polynomial (support, weight, residue consistency, untouched levels, requests used); distinct are (sampler, ring, level, stream-phase) states",
		Real:   []string{"ring.UniformSampler", "ring.GaussianSampler", "ring.TernarySampler", "ring.RandUniform", "rlwe.UniformSamplerQP"},
		Stub:   []string{"utils.PRNG (simulated byte source behind the library's own interface)"},
		Assume: []string{"a zero residue may be represented by the modulus itself in a Gaussian draw: it is congruent and the ring reduces it"},
	})
}

// source is the simulated byte source.
type source struct {
	r      *core.RNG
	mode   int
	arg    byte
	left   int // requests left in the bad phase
	last   []byte
	clock  uint64
	inGood int // requests since the source last behaved badly
	faults map[string]int64
}

var modeNames = []string{"", "stuck_zero", "stuck_ones", "stuck_byte", "repeat_block", "alternate", "sparse_bits"}

func (s *source) Clock(b []byte) {
	s.clock++
	if s.left <= 0 {
		s.inGood++
		s.r.Fill(b)
		s.last = append(s.last[:0], b...)
		return
	}
	s.left--
	s.inGood = 0
	s.faults["stream_"+modeNames[s.mode]]++
	switch s.mode {
	case 1:
		for i := range b {
			b[i] = 0
		}
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		for i := range b {
			b[i] = s.arg
		}
	case 4:
		if len(s.last) == 0 {
			s.last = append(s.last, s.arg, ^s.arg, s.arg+1)
		}
		for i := range b {
			b[i] = s.last[i%len(s.last)]
		}
	case 5:
		for i := range b {
			b[i] = s.arg
			if (i+int(s.clock))&1 == 1 {
				b[i] = ^s.arg
			}
		}
	case 6:
		for i := range b {
			b[i] = 0
			if s.r.N(16) == 0 {
				b[i] = 1 << uint(s.r.N(8))
			}
		}
	}
}
func (s *source) GetClock() uint64 { return s.clock }
func (s *source) SetClock(b []byte, n uint64) error {
	if n < s.clock {
		return fmt.Errorf("backwards")
	}
	for s.clock != n {
		s.Clock(b)
	}
	return nil
}

func c8ring(p *run.Plan) *ring.Ring {
	s := lab.GetShape(p)
	q, _ := s.Moduli()
	var r *ring.Ring
	var err error
	if s.CI == 1 {
		r, err = ring.NewRingConjugateInvariant(1<<uint(s.LogN), q)
	} else {
		r, err = ring.NewRing(1<<uint(s.LogN), q)
	}
	if err != nil {
		run.Fail("ring refused: %v", err)
	}
	return r
}

var ternP = []float64{0.5, 1.0 / 3, 0.25, 0.9, 0.1, 0.0625, 0, 0}

func genStuck(p *run.Plan, r *core.RNG, thorough bool) {
	s := lab.RandShape(r, 7, 5, 0, 0)
	if r.P(0.1) {
		s.LogN = 4
	}
	if r.P(0.15) {
		s.LogN = 8
	}
	if r.P(0.015) {
		s.Wide(r, 12)
	}
	if r.P(0.25) {
		s.QB = s.LogN + 6 + r.N(10)
		s.Q0 = s.QB
	}
	s.Put(p)
	n := 3 + r.N(10)
	for k := 0; k < n; k++ {
		if r.P(0.55) {
			p.Add(0, "source", int64(1+r.N(6)), int64(r.N(256)), int64([]int{1, 1, 2, 3, 5, 20, 150, 400}[r.N(8)]))
		}
		p.Add(0, "draw", int64(r.N(12)), int64(r.N(s.NQ)), int64(r.N(64)), int64(r.U64()>>2))
	}
}

func genSpread(p *run.Plan, r *core.RNG, thorough bool) {
	s := lab.RandShape(r, 6, 2, 0, 0)
	s.LogN = 8
	op, draws := r.N(12), 32
	if r.P(0.0015) {
		// a long run, for what only shows in the shape of the distribution
		s.LogN, s.NQ, draws = 13, 1+r.N(2), 256
		if r.P(0.6) {
			op = 2 + r.N(5)
		}
	} else if r.P(0.12) {
		// many draws of a short polynomial, for what ties one place to another
		s.LogN, draws = 4+r.W(3, 2, 1), 320
	}
	s.Put(p)
	p.Add(0, "draw", int64(op), int64(r.N(s.NQ)), int64(r.N(64)), int64(r.U64()>>2), int64(draws))
}

// gaussShape compares absolute values against the rounded and truncated normal distribution: its deviation, groups of values, and all groups together.
func gaussShape(y *Sys, abs map[int64]float64, n, sigma float64, bound int) {
	phi := func(k int64) float64 { return math.Erf((float64(k) + 0.5) / sigma / math.Sqrt2) } // P(|v| <= k)
	tot := phi(int64(bound))
	from, prev, got := int64(0), 0.0, 0.0
	var sq, want, chi, df float64
	for k := int64(0); k <= int64(bound); k++ {
		low := 0.0
		if k > 0 {
			low = phi(k - 1)
		}
		sq += float64(k*k) * abs[k]
		want += float64(k*k) * (phi(k) - low) / tot
		got += abs[k]
		q := (phi(k) - prev) / tot
		if e := n * q; e >= 100 && n*(tot-phi(k))/tot >= 100 || k == int64(bound) {
			if e >= 25 {
				y.Check(math.Abs(got-e) < 7*math.Sqrt(e*(1-q)), "shape", "Gaussian draws of deviation %.2f: %v of %v values have sizes %d to %d, not about %.0f", sigma, got, n, from, k, e)
				chi += (got - e) * (got - e) / e
				df++
			}
			from, prev, got = k+1, phi(k), 0
		}
	}
	if want > 0.01 {
		a, b := math.Sqrt(sq/n), math.Sqrt(want)
		// the fourth moment is below three times the square of the second, except where nearly everything is zero
		y.Check(math.Abs(a/b-1) < 9*math.Sqrt((3+1/want)/(4*n)), "spread", "Gaussian draws: standard deviation %.4f, expected %.4f for %.2f truncated at %d", a, b, sigma, bound)
	}
	y.Check(chi < df+8*math.Sqrt(2*df)+20, "shape", "Gaussian draws of deviation %.2f: %.1f over %v groups of sizes", sigma, chi, df)
}

// drawer performs one sampler call and says what to expect.
type drawer struct {
	y    *Sys
	r    *ring.Ring
	src  *source
	pool map[string]interface{}
}

type drawn struct {
	pol   *ring.Poly
	base  *ring.Poly // receiver content before an additive draw
	lvl   int
	kind  string
	bound int
	sigma float64
	hw    int
	p     float64
	mont  bool
	mark  [][]uint64
	extra int // requests it may need beyond the others
}

func (d *drawer) get(key string, mk func() interface{}) interface{} {
	if d.pool[key] == nil {
		d.pool[key] = mk()
	}
	return d.pool[key]
}

func (d *drawer) do(t *sched.Task, s *run.Step) (g drawn, o Outcome) {
	r := d.r
	maxl := len(r.Modulus) - 1
	lvl := s.Mod(1, maxl+1)
	v := s.Mod(2, 64)
	rng := core.NewRNG(uint64(s.Arg(3)) ^ 0x5555)
	g.lvl = lvl
	// the receiver starts with canonical junk
	g.pol = r.NewPoly()
	for i := range g.pol.Coeffs {
		for j := range g.pol.Coeffs[i] {
			g.pol.Coeffs[i][j] = rng.U64() % r.Modulus[i]
		}
	}
	g.base = g.pol.CopyNew()
	for i := range g.base.Coeffs {
		g.mark = append(g.mark, append([]uint64(nil), g.base.Coeffs[i]...))
	}
	minq := r.Modulus[0]
	for _, q := range r.Modulus {
		if q < minq {
			minq = q
		}
	}
	sigmas := []float64{3.2, 0.5, 1, 6.4, 10.5, 3.2}
	sg := sigmas[v%6]
	bd := int(6 * sg)
	if v >= 48 {
		bd = []int{int(sg) + 1, int(3 * sg), int(12 * sg), int(6*sg) + 1}[v%4]
		if bd < 1 {
			bd = 1
		}
	}
	if uint64(bd) > minq/4 {
		bd = int(minq / 4)
	}
	gs := func(sg float64, bd int) *ring.GaussianSampler {
		return d.get(fmt.Sprint("g", sg, bd), func() interface{} { return ring.NewGaussianSampler(d.src, r, sg, bd) }).(*ring.GaussianSampler)
	}
	us := func() *ring.UniformSampler {
		return d.get("u", func() interface{} { return ring.NewUniformSampler(d.src, r) }).(*ring.UniformSampler)
	}
	op := s.Mod(0, 12)
	o = t.Step(s.ID, func() {
		switch op {
		case 0:
			g.kind = "uniform"
			if v%4 == 3 && len(r.Modulus) > 1 {
				// a sampler of both parts of the moduli
				g.lvl = maxl
				nq := 1 + v/4%maxl
				x := d.get(fmt.Sprint("qp", nq), func() interface{} {
					p, err := rlwe.NewParameters(bits.Len(uint(r.N))-1, r.Modulus[:nq], r.Modulus[nq:], 0, 3.2, r.Type())
					if err != nil {
						run.Fail("parameters: %v", err)
					}
					return rlwe.NewUniformSamplerQP(p, d.src)
				}).(rlwe.UniformSamplerQP)
				x.Read(&rlwe.PolyQP{Q: &ring.Poly{Coeffs: g.pol.Coeffs[:nq]}, P: &ring.Poly{Coeffs: g.pol.Coeffs[nq:]}})
				break
			}
			us().ReadLvl(lvl, g.pol)
		case 1:
			g.kind = "uniform"
			switch v % 4 {
			case 3:
				g.extra = 6 * r.N * (lvl + 1)
				for i := 0; i <= lvl; i++ {
					q := r.Modulus[i]
					for j := range g.pol.Coeffs[i] {
						g.pol.Coeffs[i][j] = ring.RandUniform(d.src, q, 1<<uint(bits.Len64(q-1))-1)
					}
				}
			case 0:
				g.lvl = maxl
				us().Read(g.pol)
			case 1:
				g.lvl = maxl
				g.pol = us().ReadNew()
			default:
				g.pol = us().ReadLvlNew(lvl)
			}
		case 2, 3:
			g.kind, g.sigma, g.bound, g.base = "gauss", sg, bd, nil
			gs(sg, bd).ReadLvl(lvl, g.pol)
		case 4:
			g.kind, g.sigma, g.bound, g.base = "gauss", sg, bd, nil
			switch v % 3 {
			case 0:
				g.lvl = maxl
				gs(sg, bd).Read(g.pol)
			case 1:
				g.lvl = maxl
				g.pol = gs(sg, bd).ReadNew()
			default:
				g.pol = gs(sg, bd).ReadLvlNew(lvl)
			}
		case 5:
			g.kind, g.sigma, g.bound = "gauss", sg, bd
			gs(sg, bd).ReadAndAddLvl(lvl, g.pol)
		case 6:
			// a sampler of one distribution asked for another
			g.kind, g.sigma, g.bound = "gauss", sg, bd
			x := gs(3.2, min(19, int(minq/4)))
			if v&1 == 0 {
				x.ReadAndAddFromDistLvl(lvl, g.pol, r, sg, bd)
			} else {
				g.base = nil
				x.ReadFromDistLvl(lvl, g.pol, r, sg, bd)
			}
		case 7, 8:
			g.kind, g.p, g.mont = "ternary", ternP[v%8], v&8 != 0
			if v%8 >= 6 {
				g.p = 0.01 + 0.98*core.NewRNG(uint64(s.Arg(3))).F()
			}
			x := d.get(fmt.Sprint("t", g.p, g.mont), func() interface{} { return ring.NewTernarySampler(d.src, r, g.p, g.mont) }).(*ring.TernarySampler)
			d.ternary(x, &g, v>>4, lvl, maxl)
		default:
			n := r.N
			hws := []int{0, 1, 2, 7, 8, 9, n/2 - 1, n / 2, n - 1, n, n + 5, n/3 + 1}
			h := hws[v%12]
			g.kind, g.hw, g.mont = "weight", min(h, n), v&16 != 0
			g.extra = 6 * n
			x := d.get(fmt.Sprint("h", h, g.mont), func() interface{} {
				return ring.NewTernarySamplerWithHammingWeight(d.src, r, h, g.mont)
			}).(*ring.TernarySampler)
			d.ternary(x, &g, v>>5|int(s.Arg(3)&1)<<1, lvl, maxl)
		}
	})
	return
}

func (d *drawer) ternary(x *ring.TernarySampler, g *drawn, how, lvl, maxl int) {
	switch how & 3 {
	case 0:
		x.ReadLvl(lvl, g.pol)
	case 1:
		g.lvl = maxl
		x.Read(g.pol)
	case 2:
		g.pol = x.ReadLvlNew(lvl)
	default:
		g.lvl = maxl
		g.pol = x.ReadNew()
	}
}

// check verifies the draw and returns its integers (nil for uniform).
func (g *drawn) check(y *Sys, r *ring.Ring) []int64 {
	if !y.Check(len(g.pol.Coeffs) > g.lvl, "shape", "%s: polynomial of level %d for a draw at level %d", g.kind, len(g.pol.Coeffs)-1, g.lvl) {
		return nil
	}
	for i := g.lvl + 1; i < len(g.pol.Coeffs); i++ {
		same := len(g.mark[i]) == len(g.pol.Coeffs[i])
		for j := range g.mark[i] {
			same = same && g.mark[i][j] == g.pol.Coeffs[i][j]
		}
		y.Check(same, "level-touched", "%s: draw at level %d writes level %d", g.kind, g.lvl, i)
	}
	var res []int64
	for i := 0; i <= g.lvl; i++ {
		q := r.Modulus[i]
		var inv uint64
		if g.mont {
			inv = 1 // marker
		}
		row := g.pol.Coeffs[i]
		if !y.Check(len(row) == r.N, "shape", "%s: %d coefficients", g.kind, len(row)) {
			return nil
		}
		if g.kind == "uniform" {
			for j, c := range row {
				if c >= q {
					y.Check(false, "range", "uniform coefficient %d of row %d is %d, modulus %d", j, i, c, q)
					return nil
				}
			}
			y.St.Evals++
			continue
		}
		vals := make([]int64, r.N)
		for j, c := range row {
			if c > q || (g.base != nil && g.kind == "gauss" && c >= q) {
				y.Check(false, "range", "%s coefficient %d of row %d is %d, modulus %d", g.kind, j, i, c, q)
				return nil
			}
			c %= q
			if g.kind == "gauss" && g.base != nil {
				c = (c + q - g.mark[i][j]) % q
			}
			if inv == 1 {
				c = lab.InvM(c, q)
			}
			if c > q/2 {
				vals[j] = -int64(q - c)
			} else {
				vals[j] = int64(c)
			}
		}
		if res == nil {
			res = vals
			nz := 0
			for j, v := range vals {
				b := int64(1)
				if g.kind == "gauss" {
					b = int64(g.bound)
				}
				if v > b || v < -b {
					y.Check(false, "support", "%s coefficient %d is %d, bound %d (level %d)", g.kind, j, v, b, g.lvl)
					return nil
				}
				if v != 0 {
					nz++
				}
			}
			y.St.Evals++
			if g.kind == "weight" {
				y.Check(nz == g.hw, "weight", "%d non-zero coefficients, %d requested", nz, g.hw)
			}
			continue
		}
		for j := range vals {
			if vals[j] != res[j] {
				y.Check(false, "residues", "%s: coefficient %d is %d modulo row 0 but %d modulo row %d", g.kind, j, res[j], vals[j], i)
				return nil
			}
		}
		y.St.Evals++
	}
	return res
}

func execStuck(p *run.Plan, st *run.Stats) *run.Violation {
	y := &Sys{P: p, St: st}
	var r *ring.Ring
	if !y.Setup(-1, func() { r = c8ring(p) }) {
		return y.Viol
	}
	src := &source{r: core.NewRNG(p.Seed ^ 8), faults: st.Faults}
	d := &drawer{y, r, src, map[string]interface{}{}}
	y.Serial(func(t *sched.Task, s *run.Step) {
		if s.Op == "source" {
			src.mode, src.arg, src.left = 1+s.Mod(0, 6), byte(s.Arg(1)), int(s.Arg(2))
			if src.left > 2000 {
				src.left = 2000
			}
			return
		}
		bad := src.left > 0
		src.inGood = 0
		g, o := d.do(t, s)
		if o.Panic != "" {
			cl := "panic"
			if o.Budget {
				cl = "no-progress"
			}
			y.V(cl, "%s draw at level %d (N=%d, %d requests after the source recovered): %s (in %s)", g.kind, g.lvl, r.N, src.inGood, o.Panic, o.Where)
			return
		}
		lim := 3000 + 400*(g.lvl+1) + g.extra
		y.Check(src.inGood <= lim, "requests", "%s draw at level %d needed %d requests of a well-behaved source", g.kind, g.lvl, src.inGood)
		g.check(y, r)
		st.State(uint64(s.Mod(0, 12)), uint64(s.Mod(2, 64)), uint64(g.lvl), uint64(len(r.Modulus)), uint64(r.N), uint64(src.mode), b2u(bad))
		st.Log(HU(3, g.pol.Coeffs[0]), src.clock)
	})
	return y.Viol
}

func sign64(v int64) int {
	switch {
	case v > 0:
		return 1
	case v < 0:
		return -1
	}
	return 0
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// execSpread draws many coefficients from a well-behaved source; the limits are eight and more standard deviations wide.
func execSpread(p *run.Plan, st *run.Stats) *run.Violation {
	y := &Sys{P: p, St: st}
	var r *ring.Ring
	if !y.Setup(-1, func() { r = c8ring(p) }) {
		return y.Viol
	}
	src := &source{r: core.NewRNG(p.Seed ^ 8), faults: st.Faults}
	d := &drawer{y, r, src, map[string]interface{}{}}
	y.Serial(func(t *sched.Task, s *run.Step) {
		var all []int64
		// what follows a coefficient: [sign of the first + 1][sign of the second + 1]
		var next [3][3]float64
		bins := make([]float64, 16)
		par := [2]float64{}
		n := 0.0
		var g drawn
		half := 0.0
		// sixteen places of a polynomial: sign of one against sign of another, against another being zero (or odd), and
		// against its own sign in the polynomial before
		var pair [3][16][16][2]float64
		var last [16]float64
		draws := 32
		if len(s.A) > 4 {
			draws = max(1, min(1024, int(s.Arg(4))))
		}
		for k := 0; k < draws && y.Viol == nil; k++ {
			z := *s
			z.ID = s.ID*2000 + k
			var o Outcome
			g, o = d.do(t, &z)
			if o.Panic != "" {
				y.V("panic", "%s draw: %s (in %s)", g.kind, o.Panic, o.Where)
				return
			}
			vals := g.check(y, r)
			if y.Viol != nil {
				return
			}
			all = append(all, vals...)
			for i := 1; i < len(vals); i++ {
				next[sign64(vals[i-1])+1][sign64(vals[i])+1]++
			}
			for i, v := range vals {
				if v != 0 && i < r.N/2 {
					half++
				}
			}
			if g.kind != "uniform" && draws >= 150 {
				var sg, zr [16]float64
				for i := range sg {
					v := vals[i*r.N/16]
					sg[i], zr[i] = float64(sign64(v)), 1
					if v == 0 || (g.kind == "gauss" && v&1 == 0) {
						zr[i] = -1
					}
				}
				for i := range sg {
					for j := range sg {
						for k, x := range [3]float64{sg[i] * sg[j], sg[i] * zr[j], sg[i] * last[j]} {
							if x != 0 && (k != 0 || i != j) {
								pair[k][i][j][0]++
								pair[k][i][j][1] += x
							}
						}
					}
				}
				last = sg
			}
			if g.kind == "uniform" {
				for i := 0; i <= g.lvl; i++ {
					for _, c := range g.pol.Coeffs[i] {
						bins[int(float64(c)/float64(r.Modulus[i])*16)&15]++
						par[c&1]++
						n++
					}
				}
			}
		}
		st.Log(uint64(len(all)))
		st.State(uint64(s.Mod(0, 12)), uint64(s.Mod(2, 64)), uint64(r.N))
		switch g.kind {
		case "uniform":
			for i, b := range bins {
				e := n / 16
				y.Check(math.Abs(b-e) < 9*math.Sqrt(e), "spread", "uniform draws: %v of %v values in sixteenth %d", b, n, i)
			}
			y.Check(math.Abs(par[0]-par[1]) < 9*math.Sqrt(n), "spread", "uniform draws: parity %v", par)
		default:
			n = float64(len(all))
			var sum, nz, pos float64
			for _, v := range all {
				sum += float64(v)
				if v != 0 {
					nz++
				}
				if v > 0 {
					pos++
				}
			}
			if g.kind != "weight" {
				// neighbours are independent: what follows a negative coefficient follows the others as often
				for a := 0; a < 3; a++ {
					for b := 0; b < 3; b++ {
						var in, out, nin, nout float64
						for c := 0; c < 3; c++ {
							for e := 0; e < 3; e++ {
								w := next[c][e]
								if c == a {
									nin += w
									if e == b {
										in += w
									}
								} else {
									nout += w
									if e == b {
										out += w
									}
								}
							}
						}
						if nin < 100 || nout < 100 {
							continue
						}
						q := (in + out) / (nin + nout)
						y.Check(math.Abs(in/nin-out/nout) < 9*math.Sqrt(q*(1-q)*(1/nin+1/nout))+20/nin+20/nout, "neighbours", "%s draws: sign %d follows sign %d with frequency %.3f, others with frequency %.3f", g.kind, b-1, a-1, in/nin, out/nout)
					}
				}
			}
			for k := range pair {
				for i := range pair[k] {
					for j, x := range pair[k][i] {
						if x[0] >= 82 && math.Abs(x[1]) > 9*math.Sqrt(x[0]) {
							y.Check(false, "dependent", "%s draws: the sign at place %d agrees with %s at place %d in %v of %v draws", g.kind, i*r.N/16,
								[3]string{"the sign", "being non-zero or odd", "the sign one draw before"}[k], j*r.N/16, (x[0]+x[1])/2, x[0])
						}
					}
				}
			}
			y.Check(math.Abs(2*pos-nz) < 9*math.Sqrt(nz+1), "sign", "%s draws: %v positive of %v non-zero", g.kind, pos, nz)
			switch g.kind {
			case "gauss":
				abs := map[int64]float64{}
				for _, v := range all {
					if v < 0 {
						v = -v
					}
					abs[v]++
				}
				gaussShape(y, abs, n, g.sigma, g.bound)
			case "ternary":
				y.Check(math.Abs((n-nz)/n-g.p) < 9*math.Sqrt(g.p*(1-g.p)/n), "spread", "ternary draws: %.4f zeros, configured %.4f", (n-nz)/n, g.p)
			case "weight":
				y.Check(math.Abs(2*half-nz) < 9*math.Sqrt(nz+1), "position", "fixed-weight draws: %v of %v non-zeros in the first half", half, nz)
			}
		}
	})
	return y.Viol
}
