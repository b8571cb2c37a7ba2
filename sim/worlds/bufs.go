package worlds

import (
	"fmt"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
)

// bufs are a client's working buffers: containers whose content changes from call to call while the objects, their
// polynomials and their rows stay the same, as in a program that allocates its ciphertexts once.
type bufs struct {
	m map[string][]interface{}
}

// load puts v's value into one of the client's containers that is not in use for this call and returns it.
func (b *bufs) load(v interface{}, r *core.RNG, used map[interface{}]bool) interface{} {
	switch x := v.(type) {
	case *ckks.Ciphertext:
		if x == nil || x.Ciphertext == nil {
			return v
		}
	case *rlwe.Ciphertext, *ckks.Plaintext, *rlwe.Plaintext, *ring.Poly, []complex128, *fckks.Message:
	default:
		return v
	}
	if b.m == nil {
		b.m = map[string][]interface{}{}
	}
	key := fmt.Sprintf("%T", v)
	l := b.m[key]
	if len(l) > 0 {
		i := r.N(len(l))
		for k := 0; k < len(l); k++ {
			c := l[(i+k)%len(l)]
			if used[ident(c)] {
				continue
			}
			n := assignV(c, v)
			used[ident(n)] = true
			l[(i+k)%len(l)] = n
			return n
		}
	}
	n := cloneV(v)
	if len(l) < 3 {
		b.m[key] = append(l, n)
		used[ident(n)] = true
	}
	return n
}

// ident is what two uses of the same memory have in common.
func ident(v interface{}) interface{} {
	if s, ok := v.([]complex128); ok {
		if cap(s) == 0 {
			return nil
		}
		return &s[:1][0]
	}
	return v
}

func assignPoly(d, s *ring.Poly) *ring.Poly {
	if s == nil {
		return nil
	}
	if d == nil {
		d = &ring.Poly{}
	}
	rows := d.Coeffs[:cap(d.Coeffs)]
	res := rows[:0]
	for j, c := range s.Coeffs {
		var row []uint64
		if j < len(rows) && cap(rows[j]) >= len(c) && len(c) > 0 {
			row = rows[j][:len(c)]
			copy(row, c)
		} else {
			row = append([]uint64(nil), c...)
		}
		res = append(res, row)
	}
	d.Coeffs, d.IsNTT, d.IsMForm = res, s.IsNTT, s.IsMForm
	return d
}

func assignPolys(d, s []*ring.Poly) []*ring.Poly {
	all := d[:cap(d)]
	res := all[:0]
	for i, p := range s {
		var x *ring.Poly
		if i < len(all) {
			x = all[i]
		}
		res = append(res, assignPoly(x, p))
	}
	return res
}

// assignV gives dst the value of src, reusing its memory; it returns dst (slices may be a longer or shorter view of it).
func assignV(dst, src interface{}) interface{} {
	switch s := src.(type) {
	case *ckks.Ciphertext:
		d := dst.(*ckks.Ciphertext)
		d.Value, d.Scale = assignPolys(d.Value, s.Value), s.Scale
	case *rlwe.Ciphertext:
		d := dst.(*rlwe.Ciphertext)
		d.Value = assignPolys(d.Value, s.Value)
	case *ckks.Plaintext:
		d := dst.(*ckks.Plaintext)
		d.Plaintext.Value, d.Scale = assignPoly(d.Plaintext.Value, s.Plaintext.Value), s.Scale
	case *rlwe.Plaintext:
		d := dst.(*rlwe.Plaintext)
		d.Value = assignPoly(d.Value, s.Value)
	case *ring.Poly:
		return assignPoly(dst.(*ring.Poly), s)
	case []complex128:
		return append(dst.([]complex128)[:0], s...)
	case *fckks.Message:
		d := dst.(*fckks.Message)
		d.Value = append(d.Value[:0], s.Value...)
	default:
		return src
	}
	return dst
}
