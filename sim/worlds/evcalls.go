package worlds

import (
	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/run"
)

// evCall is one call on a CKKS evaluator.
type evCall struct {
	op    string
	a, b  ckks.Operand
	c, c2 interface{}
	k     int
	ks    []int
	f     float64
	swk   *rlwe.SwitchingKey
	out   *ckks.Ciphertext   // nil: the variant that creates its result
	outs  []*ckks.Ciphertext // results of hoisted calls
	nmd   int                // hoisted calls: 1, 2: leave the division by P to the caller
}

// methods that the interface does not list.
type evRescaleNew interface {
	RescaleNew(*ckks.Ciphertext, float64) (*ckks.Ciphertext, error)
}
type evPow2 interface {
	MulByPow2New(*ckks.Ciphertext, int) *ckks.Ciphertext
	MulByPow2(*ckks.Ciphertext, int, *ckks.Ciphertext)
}
type evHoist interface {
	PermuteNTTHoisted(level int, c0, c1 *ring.Poly, c2DecompQP []rlwe.PolyQP, k int, cOut0, cOut1 *ring.Poly)
}

type evHoistNoModDown interface {
	RotateHoistedNoModDownNew(level int, rotations []int, c0 *ring.Poly, c2DecompQP []rlwe.PolyQP) map[int][2]rlwe.PolyQP
	PermuteNTTHoistedNoModDown(level int, c0 *ring.Poly, c2DecompQP []rlwe.PolyQP, k int, ct0OutQ, ct1OutQ, ct0OutP, ct1OutP *ring.Poly)
}

// has says whether the engine offers the call.
func (c *evCall) has(ev ckks.Evaluator) bool {
	switch c.op {
	case "rescale":
		if c.out == nil {
			_, ok := ev.(evRescaleNew)
			return ok
		}
	case "mulpow2":
		_, ok := ev.(evPow2)
		return ok
	case "hoist":
		_, ok := ev.(evHoist)
		return ok
	}
	return true
}

// needsOut says that the call exists only with a receiver.
func needsOut(op string) bool {
	switch op {
	case "mulgauss", "mulconstadd", "mulgaussadd", "mulandadd", "mulrelinandadd", "setscale":
		return true
	}
	return false
}

func (c *evCall) run(ev ckks.Evaluator) (out *ckks.Ciphertext, err error) {
	ca, _ := c.a.(*ckks.Ciphertext)
	out = c.out
	nw := out == nil
	switch c.op {
	case "add":
		if nw {
			out = ev.AddNew(c.a, c.b)
		} else {
			ev.Add(c.a, c.b, out)
		}
	case "sub":
		if nw {
			out = ev.SubNew(c.a, c.b)
		} else {
			ev.Sub(c.a, c.b, out)
		}
	case "addnomod":
		if nw {
			out = ev.AddNoModNew(c.a, c.b)
		} else {
			ev.AddNoMod(c.a, c.b, out)
		}
		err = ev.Reduce(out, out)
	case "subnomod":
		if nw {
			out = ev.SubNoModNew(c.a, c.b)
		} else {
			ev.SubNoMod(c.a, c.b, out)
		}
		if err = ev.Reduce(out, out); err == nil && nw {
			out = ev.ReduceNew(out)
		}
	case "neg":
		if nw {
			out = ev.NegNew(ca)
		} else {
			ev.Neg(ca, out)
		}
	case "addconst":
		if nw {
			out = ev.AddConstNew(ca, c.c)
		} else {
			ev.AddConst(ca, c.c, out)
		}
	case "mulconst":
		if nw {
			out = ev.MultByConstNew(ca, c.c)
		} else {
			ev.MultByConst(ca, c.c, out)
		}
	case "mulgauss":
		ev.MultByGaussianInteger(ca, c.c, c.c2, out)
	case "mulconstadd":
		ev.MultByConstAndAdd(ca, c.c, out)
	case "mulgaussadd":
		ev.MultByGaussianIntegerAndAdd(ca, c.c, c.c2, out)
	case "multi":
		if nw {
			out = ev.MultByiNew(ca)
		} else {
			ev.MultByi(ca, out)
		}
	case "divi":
		if nw {
			out = ev.DivByiNew(ca)
		} else {
			ev.DivByi(ca, out)
		}
	case "mulpow2":
		if nw {
			out = ev.(evPow2).MulByPow2New(ca, c.k)
		} else {
			ev.(evPow2).MulByPow2(ca, c.k, out)
		}
	case "conj":
		if nw {
			out = ev.ConjugateNew(ca)
		} else {
			ev.Conjugate(ca, out)
		}
	case "rotate":
		if nw {
			out = ev.RotateNew(ca, c.k)
		} else {
			ev.Rotate(ca, c.k, out)
		}
	case "switchkeys":
		if nw {
			out = ev.SwitchKeysNew(ca, c.swk)
		} else {
			ev.SwitchKeys(ca, c.swk, out)
		}
	case "mul":
		if nw {
			out = ev.MulNew(c.a, c.b)
		} else {
			ev.Mul(c.a, c.b, out)
		}
	case "mulrelin":
		if nw {
			out = ev.MulRelinNew(c.a, c.b)
		} else {
			ev.MulRelin(c.a, c.b, out)
		}
	case "mulandadd":
		ev.MulAndAdd(c.a, c.b, out)
	case "mulrelinandadd":
		ev.MulRelinAndAdd(c.a, c.b, out)
	case "relin":
		if nw {
			out = ev.RelinearizeNew(ca)
		} else {
			ev.Relinearize(ca, out)
		}
	case "scaleup":
		if nw {
			out = ev.ScaleUpNew(ca, c.f)
		} else {
			ev.ScaleUp(ca, c.f, out)
		}
	case "setscale":
		ev.SetScale(out, c.f)
	case "rescale":
		if nw {
			out, err = ev.(evRescaleNew).RescaleNew(ca, c.f)
		} else {
			err = ev.Rescale(ca, c.f, out)
		}
	case "droplevel":
		if nw {
			out = ev.DropLevelNew(ca, c.k)
		} else {
			ev.DropLevel(out, c.k)
		}
	case "reduce":
		if nw {
			out = ev.ReduceNew(ca)
		} else {
			err = ev.Reduce(ca, out)
		}
	case "hoist":
		// one decomposition of the second component serves several rotations
		ks := ev.GetKeySwitcher()
		lvl := ca.Level()
		lp := ks.Parameters.PCount() - 1
		ks.DecomposeNTT(lvl, lp, lp+1, ca.Value[1], ks.PoolDecompQP)
		hn, ok := ev.(evHoistNoModDown)
		var all map[int][2]rlwe.PolyQP
		if ok && c.nmd == 2 {
			all = hn.RotateHoistedNoModDownNew(lvl, c.ks, ca.Value[0], ks.PoolDecompQP)
		}
		for i, k := range c.ks {
			o := c.outs[i]
			if ok && c.nmd > 0 && k != 0 {
				var x [2]rlwe.PolyQP
				if c.nmd == 2 {
					x = all[k]
				} else {
					for j := range x {
						x[j] = ks.Parameters.RingQP().NewPolyLvl(lvl, lp)
					}
					hn.PermuteNTTHoistedNoModDown(lvl, ca.Value[0], ks.PoolDecompQP, k, x[0].Q, x[1].Q, x[0].P, x[1].P)
				}
				for j := range x {
					ks.BasisExtender.ModDownQPtoQNTT(lvl, lp, x[j].Q, x[j].P, o.Value[j])
				}
				o.Scale = ca.Scale
				continue
			}
			ev.(evHoist).PermuteNTTHoisted(lvl, ca.Value[0], ca.Value[1], ks.PoolDecompQP, k, o.Value[0], o.Value[1])
			o.Scale = ca.Scale
		}
	default:
		run.Fail("call %s", c.op)
	}
	return
}
