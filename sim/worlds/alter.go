package worlds

import (
	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
	"vsim/lab"
)

// alter returns a copy of an object that differs from it in one place, and says where. It returns nil where it has none
// to offer.
func (q *party) alter(obj interface{}, r *core.RNG) (interface{}, string) {
	coeff := func(p *ring.Poly) {
		c := p.Coeffs[r.N(len(p.Coeffs))]
		k := r.N(len(c))
		if r.P(0.3) {
			k = len(c) - 1
		}
		c[k] ^= 1 << uint(r.N(20))
	}
	part := func(p *rlwe.PolyQP) string {
		switch {
		case p.P != nil && r.P(0.1):
			p.P = nil
			return "special part missing"
		case p.P != nil && r.P(0.1):
			p.P.Coeffs = p.P.Coeffs[:len(p.P.Coeffs)-1]
			return "special part shorter"
		case len(p.Q.Coeffs) > 1 && r.P(0.1):
			p.Q.Coeffs = p.Q.Coeffs[:len(p.Q.Coeffs)-1]
			return "one modulus fewer"
		case p.P != nil && len(p.P.Coeffs) > 0 && r.P(0.5):
			coeff(p.P)
			return "a coefficient of the special part"
		}
		coeff(p.Q)
		return "a coefficient"
	}
	qp := func(v rlwe.PolyQP) rlwe.PolyQP { return cloneV(v).(rlwe.PolyQP) }
	pair := func(v [2]rlwe.PolyQP) [2]rlwe.PolyQP { return [2]rlwe.PolyQP{qp(v[0]), qp(v[1])} }
	swk := func(v *rlwe.SwitchingKey) *rlwe.SwitchingKey {
		c := &rlwe.SwitchingKey{}
		for _, x := range v.Value {
			c.Value = append(c.Value, pair(x))
		}
		return c
	}
	alterSwk := func(v *rlwe.SwitchingKey) string {
		if len(v.Value) > 1 && r.P(0.15) {
			v.Value = v.Value[:len(v.Value)-1]
			return "one digit fewer"
		}
		return part(&v.Value[r.N(len(v.Value))][r.N(2)])
	}
	switch v := obj.(type) {
	case *ring.Poly:
		c := cloneV(v).(*ring.Poly)
		if len(c.Coeffs) > 1 && r.P(0.2) {
			c.Coeffs = c.Coeffs[:len(c.Coeffs)-1]
			return c, "one modulus fewer"
		}
		coeff(c)
		return c, "a coefficient"
	case *rlwe.SecretKey:
		c := &rlwe.SecretKey{Value: qp(v.Value)}
		return c, part(&c.Value)
	case *rlwe.PublicKey:
		c := &rlwe.PublicKey{Value: pair(v.Value)}
		return c, part(&c.Value[r.N(2)])
	case *rlwe.SwitchingKey:
		c := swk(v)
		return c, alterSwk(c)
	case *rlwe.RelinearizationKey:
		c := &rlwe.RelinearizationKey{}
		for _, k := range v.Keys {
			c.Keys = append(c.Keys, swk(k))
		}
		if len(c.Keys) > 1 && r.P(0.2) {
			c.Keys = c.Keys[:len(c.Keys)-1]
			return c, "one key fewer"
		}
		return c, "key: " + alterSwk(c.Keys[r.N(len(c.Keys))])
	case *rlwe.RotationKeySet:
		c := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}
		gs := sortedGal(v)
		if len(gs) == 0 {
			return nil, ""
		}
		for _, g := range gs {
			c.Keys[g] = swk(v.Keys[g])
		}
		g := gs[r.N(len(gs))]
		k := c.Keys[g]
		switch {
		case r.P(0.2):
			delete(c.Keys, g)
			return c, "one key fewer"
		case r.P(0.25):
			delete(c.Keys, g)
			n := uint64(4 * q.rp.N())
			g2 := (g + 2) % n
			for c.Keys[g2] != nil {
				g2 = (g2 + 2) % n
			}
			c.Keys[g2] = k
			return c, "a key under another element"
		}
		return c, "key: " + alterSwk(k)
	case *rlwe.Parameters:
		if p, what, ok := q.alterParams(*v, r); ok {
			return &p, what
		}
	case *ckks.Parameters:
		ls, sc, rp, what := v.LogSlots(), v.DefaultScale(), v.Parameters, ""
		switch r.N(3) {
		case 0:
			if ls == 0 {
				return nil, ""
			}
			ls, what = ls-1, "slots"
		case 1:
			sc, what = sc*2, "scale"
			if r.P(0.5) {
				sc = v.DefaultScale() + 1
			}
		default:
			var ok bool
			if rp, what, ok = q.alterParams(rp, r); !ok {
				return nil, ""
			}
		}
		p, err := ckks.NewParameters(rp, ls, sc)
		if err != nil {
			return nil, ""
		}
		return &p, what
	}
	return nil, ""
}

func (q *party) alterParams(v rlwe.Parameters, r *core.RNG) (p rlwe.Parameters, what string, ok bool) {
	logn, qi, pi, h, sg := v.LogN(), v.Q(), v.P(), v.HammingWeight(), v.Sigma()
	nth := 2 << uint(logn)
	if q.shape.CI == 1 {
		nth *= 2
	}
	fresh := func(b int) uint64 {
		pk := lab.NewPicker(r.U64(), nth)
		for {
			x := pk.Prime(b)
			if !has(qi, x) && !has(pi, x) {
				return x
			}
		}
	}
	switch r.N(7) {
	case 0:
		h, what = h-1, "h"
		if h < 0 {
			h = 1
		}
	case 1:
		sg, what = sg+0.5, "sigma"
	case 2:
		qi, what = append([]uint64(nil), qi...), "a modulus"
		k := r.N(len(qi))
		qi[k] = fresh(q.shape.QB)
	case 3:
		if len(qi) < 2 {
			return
		}
		qi, what = qi[:len(qi)-1], "last modulus"
	case 4:
		if len(pi) == 0 {
			return
		}
		pi, what = append([]uint64(nil), pi...), "a special modulus"
		pi[r.N(len(pi))] = fresh(q.shape.PB)
	case 5:
		pi, what = append(append([]uint64(nil), pi...), fresh(q.shape.PB)), "one special modulus more"
	default:
		if logn <= 4 {
			return
		}
		logn, what = logn-1, "ring degree"
		if h > 1<<uint(logn) {
			return
		}
	}
	p, err := rlwe.NewParameters(logn, qi, pi, h, sg, v.RingType())
	return p, what, err == nil
}

func has(l []uint64, x uint64) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}
