package run

import (
	"time"

	"vsim/sched"
)

// Shrink minimises a failing plan while test keeps reporting the same class.
func Shrink(p *Plan, v *Violation, test func(*Plan) *Violation, limit time.Duration) (*Plan, *Violation) {
	end := time.Now().Add(limit)
	best, bv := p, v
	try := func(q *Plan) bool {
		if time.Now().After(end) {
			return false
		}
		w := test(q)
		if w != nil && w.Class == v.Class {
			best, bv = q, w
			return true
		}
		return false
	}
	for round := 0; round < 4; round++ {
		before := size(best)
		ddmin(len(best.Steps), func(keep []bool) bool {
			q := best.Clone()
			q.Steps = nil
			ids := map[int]bool{}
			for i, s := range best.Clone().Steps {
				if keep[i] {
					q.Steps = append(q.Steps, s)
					ids[s.ID] = true
				}
			}
			q.Pre, q.Ent = nil, nil
			for _, x := range best.Pre {
				if ids[x.Step] || x.Step < 0 {
					q.Pre = append(q.Pre, x)
				}
			}
			for _, x := range best.Ent {
				if ids[x.Step] || x.Step < 0 {
					q.Ent = append(q.Ent, x)
				}
			}
			if q.Pre == nil {
				q.Sched = 0
			}
			return try(q)
		}, func() int { return len(best.Steps) })
		ddmin(len(best.Pre), func(keep []bool) bool {
			q := best.Clone()
			q.Pre = []sched.Preempt{}
			for i, s := range best.Pre {
				if keep[i] {
					q.Pre = append(q.Pre, s)
				}
			}
			if len(q.Pre) == 0 {
				q.Sched = 0
			}
			return try(q)
		}, func() int { return len(best.Pre) })
		ddmin(len(best.Ent), func(keep []bool) bool {
			q := best.Clone()
			q.Ent = nil
			for i, s := range best.Ent {
				if keep[i] {
					q.Ent = append(q.Ent, s)
				}
			}
			return try(q)
		}, func() int { return len(best.Ent) })
		for i := 0; i < len(best.Steps); i++ {
			for j := 0; j < len(best.Steps[i].A); j++ {
				for _, c := range []int64{0, 1, best.Steps[i].A[j] / 2} {
					if c == best.Steps[i].A[j] || (best.Steps[i].A[j] == 1 && c == 1) || best.Steps[i].A[j] == 0 {
						continue
					}
					q := best.Clone()
					q.Steps[i].A[j] = c
					if try(q) {
						break
					}
				}
			}
		}
		if size(best) == before || time.Now().After(end) {
			break
		}
	}
	return best, bv
}

func size(p *Plan) int {
	n := len(p.Steps)*1000 + len(p.Pre)*1000 + len(p.Ent)*1000
	for _, s := range p.Steps {
		for _, a := range s.A {
			if a != 0 {
				n++
			}
		}
	}
	return n
}

// ddmin drops chunks; try reports success having updated the current list, whose length n() returns.
func ddmin(n0 int, try func(keep []bool) bool, n func() int) {
	if n0 == 0 {
		return
	}
	chunk := n0
	for chunk >= 1 {
		i := 0
		for i < n() {
			l := n()
			keep := make([]bool, l)
			for k := range keep {
				keep[k] = k < i || k >= i+chunk
			}
			if !try(keep) {
				i += chunk
			}
		}
		chunk /= 2
	}
}
