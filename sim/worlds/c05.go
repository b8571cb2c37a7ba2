package worlds

import (
	"fast-ksw/ring"
	"fast-ksw/rlwe"

	"vsim/core"
	"vsim/run"
	"vsim/sched"
)

// A network of nodes exchanges and stores serialised objects. Deliveries are reordered, duplicated and lost; nodes reuse
// receivers, crash, and reload what they had persisted. The transport reuses its buffers.

func init() {
	run.Register(&run.Prop{
		ID: "C05", Quick: 40000, Thorough: 1500000,
		Worlds: []*run.World{
			{Kind: "nodes", Weight: 5, Gen: genNodes, Exec: execNodes},
			{Kind: "stream", Weight: 1, Gen: genStream, Exec: execStream},
		},
		Rule:   "one evaluation is one decoded object compared with its original (content, announced size, equality as the library sees it, or behaviour in use) after its journey; distinct are (kind, journey, receiver state, parameter shape) states",
		Real:   []string{"all MarshalBinary/UnmarshalBinary, MarshalJSON/UnmarshalJSON, WriteTo/DecodePolyNew of ring, rlwe and ckks", "Equals of parameters and keys", "decryptor, encryptor, key switcher, encoder, ring arithmetic for use after decoding"},
		Stub:   []string{"network (loss, duplication, reordering, buffer reuse)", "disk and node memory (crash, restart, reload)", "map iteration order"},
		Assume: []string{"blobs arrive undamaged (damage is C06)"},
	})
}

func genNodes(p *run.Plan, r *core.RNG, thorough bool) {
	genParties(p, r)
	n := 18 + r.N(30)
	if thorough {
		n = 20 + r.N(80)
	}
	for k := 0; k < n; k++ {
		op := []string{"make", "send", "recv", "hop", "persist", "crash", "use", "drop"}[r.W(6, 4, 12, 4, 3, 1, 5, 1)]
		if k < 3 {
			op = []string{"make", "make", "send"}[k]
		}
		p.Add(0, op, int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.U64()>>2))
	}
}

type original struct {
	kind    string
	q       *party
	obj     interface{}
	dig     uint64
	digC    uint64
	useDig  uint64
	useDone bool
}

type parcel struct {
	o    *original
	blob []byte
	hops int
	sent int64
}

type holding struct {
	o    *original
	obj  interface{}
	hops int
}

type node struct {
	slots map[string]*holding
	disk  []parcel
}

func execNodes(p *run.Plan, st *run.Stats) *run.Violation {
	y := &Sys{P: p, St: st}
	ps, ok := twoParties(y)
	if !ok {
		return y.Viol
	}
	var objs []*original
	var wire []parcel
	nodes := make([]*node, 3)
	for i := range nodes {
		nodes[i] = &node{slots: map[string]*holding{}}
	}
	now := int64(0)
	// enc encodes o and checks the encoding's announced size and that the original stays as it was.
	enc := func(t *sched.Task, id int, o *original, obj interface{}) []byte {
		var b []byte
		var err error
		oc := t.Step(id, func() { b, err = encode(o.kind, obj) })
		if !y.Check(oc.Panic == "" && err == nil, "encode", "encoding a %s: %s %v (in %s)", o.kind, oc.Panic, err, oc.Where) {
			return nil
		}
		if n := announced(o.kind, obj); n >= 0 {
			y.Check(n == len(b), "size", "%s announces %d bytes and encodes to %d", o.kind, n, len(b))
		}
		y.Check(dig(obj, true) == o.dig, "encode-changes", "encoding a %s changes it", o.kind)
		return b
	}
	// dec decodes a parcel into receiver rec.
	dec := func(t *sched.Task, id int, pc parcel, rec interface{}, how string) bool {
		b := append([]byte(nil), pc.blob...)
		var err error
		oc := t.Step(id, func() { err = decode(pc.o.kind, rec, b) })
		if !y.Check(oc.Panic == "" && err == nil, "decode", "decoding a %s (%d bytes, %s): %s %v (in %s)", pc.o.kind, len(b), how, oc.Panic, err, oc.Where) {
			return false
		}
		y.Check(HB(b) == HB(pc.blob), "blob-changed", "decoding a %s changes the blob", pc.o.kind)
		// the transport's buffer is used for something else
		for i := range b {
			b[i] = 0xA5
		}
		if isJSON(pc.o.kind) && dig(rec, true) != pc.o.dig {
			if z, has := zeroDefaulted(pc.o.obj); has {
				y.Check(dig(rec, true) != dig(z, true), "json-zero-field", "parameters with a zero field (H, Sigma or LogSlots) decode from JSON with its default instead")
			}
		}
		if !y.Check(dig(rec, true) == pc.o.dig, "unequal", "%s decoded into a %s receiver differs from the original after %d hops (content equal apart from flags: %v)", pc.o.kind, how, pc.hops, dig(rec, false) == pc.o.digC) {
			return false
		}
		if eq, has := libEqualsSafe(t, id, y, rec, pc.o.obj, pc.o.kind); has {
			y.Check(eq, "equals", "decoded %s does not equal the original", pc.o.kind)
		}
		if eq, has := libEqualsSafe(t, id, y, pc.o.obj, rec, pc.o.kind); has {
			y.Check(eq, "equals", "original %s does not equal the decoded one", pc.o.kind)
		}
		// and it equals nothing else
		for _, x := range objs {
			if x.kind == pc.o.kind && x.digC != pc.o.digC {
				if eq, has := libEqualsSafe(t, id, y, rec, x.obj, pc.o.kind); has {
					y.Check(!eq, "equals-other", "decoded %s equals a different one", pc.o.kind)
				}
				if eq, has := libEqualsSafe(t, id, y, x.obj, rec, pc.o.kind); has {
					y.Check(!eq, "equals-other", "a different %s equals the decoded one", pc.o.kind)
				}
				break
			}
		}
		if ra := core.NewRNG(core.H(uint64(id), p.Seed, 0xA17)); ra.P(0.4) {
			var x interface{}
			var what string
			oc := t.Step(id, func() { x, what = pc.o.q.alter(pc.o.obj, ra) })
			if oc.Panic != "" {
				run.Fail("alter: %s %s", oc.Panic, oc.Where)
			}
			if x != nil {
				if eq, has := libEqualsSafe(t, id, y, rec, x, pc.o.kind); has {
					y.Check(!eq, "equals-other", "decoded %s equals one that differs from it: %s", pc.o.kind, what)
				}
				if eq, has := libEqualsSafe(t, id, y, x, rec, pc.o.kind); has {
					y.Check(!eq, "equals-other", "a %s that differs from the decoded one equals it: %s", pc.o.kind, what)
				}
			}
		}
		st.Log(pc.o.dig, uint64(id))
		return y.Viol == nil
	}
	use := func(t *sched.Task, id int, o *original, obj interface{}, what string) {
		run1 := func(x interface{}) (h uint64, oc Outcome) {
			oc = t.Step(id, func() { h = o.q.useObj(x) })
			return
		}
		a, oa := run1(o.obj)
		b, ob := run1(obj)
		if oa.Panic != "" {
			// the original itself cannot be used this way: nothing to compare
			st.Probe("use-refused: " + o.kind + " " + oa.Panic + " " + oa.Where)
			y.Check(ob.Panic == oa.Panic, "use", "%s %s behaves differently: %q, original %q (in %s)", what, o.kind, ob.Panic, oa.Panic, ob.Where)
			return
		}
		y.Check(ob.Panic == "" && a == b, "use", "%s %s behaves differently from the original in use: %s (in %s)", what, o.kind, ob.Panic, ob.Where)
		y.Check(dig(obj, true) == o.dig, "use-changes", "using a decoded %s changes it", o.kind)
	}
	y.Serial(func(t *sched.Task, s *run.Step) {
		now += 1 + s.Arg(3)%7
		r := core.NewRNG(core.H(uint64(s.Arg(3)), p.Seed))
		nd := nodes[s.Mod(1, len(nodes))]
		switch s.Op {
		case "make":
			q := ps[s.Mod(1, 2)]
			kind := objKinds[s.Mod(0, len(objKinds))]
			if !q.hasKind(kind) {
				return
			}
			o := &original{kind: kind, q: q}
			oc := t.Step(s.ID, func() { o.obj = q.make(kind, r) })
			if oc.Panic != "" {
				st.Probe("make-failed-" + kind + " " + oc.Panic)
				return
			}
			o.dig, o.digC = dig(o.obj, true), dig(o.obj, false)
			objs = append(objs, o)
		case "send":
			if len(objs) == 0 {
				return
			}
			o := objs[s.Mod(0, len(objs))]
			b := enc(t, s.ID, o, o.obj)
			for k := 0; b != nil && k <= s.Mod(2, 3); k++ {
				wire = append(wire, parcel{o, b, 1, now})
				if k > 0 {
					st.Fault("net_duplicate")
				}
			}
		case "drop":
			if len(wire) > 0 {
				k := s.Mod(0, len(wire))
				wire = append(wire[:k], wire[k+1:]...)
				st.Fault("net_loss")
			}
		case "recv":
			if len(wire) == 0 {
				return
			}
			k := s.Mod(0, len(wire))
			pc := wire[k]
			if k > 0 {
				st.Fault("net_reorder")
			}
			if pc.sent+8 < now {
				st.Fault("net_delay")
			}
			if r.P(0.6) {
				wire = append(wire[:k], wire[k+1:]...)
			} else {
				st.Fault("net_duplicate")
			}
			slot := pc.o.kind
			if s.Arg(2)&1 == 1 {
				slot += "2"
			}
			h := nd.slots[slot]
			how := "used"
			var rec interface{}
			if h == nil || r.P(0.25) {
				rec = ps[r.N(2)].blank(pc.o.kind, r)
				how = "new"
			} else {
				rec = h.obj
			}
			if dec(t, s.ID, pc, rec, how) {
				nd.slots[slot] = &holding{pc.o, rec, pc.hops}
			}
			st.StateS("%s/%s/%d/%d/%d/%d", pc.o.kind, how, pc.hops, pc.o.q.shape.LogN, pc.o.q.shape.NQ, pc.o.q.shape.NP)
		case "hop", "persist":
			h := nd.slots[objKinds[s.Mod(0, len(objKinds))]]
			for k := 0; h == nil && k < len(objKinds); k++ {
				h = nd.slots[objKinds[(s.Mod(0, len(objKinds))+k)%len(objKinds)]]
			}
			if h == nil {
				return
			}
			b := enc(t, s.ID, h.o, h.obj)
			if b == nil {
				return
			}
			if s.Op == "hop" {
				wire = append(wire, parcel{h.o, b, h.hops + 1, now})
			} else {
				nd.disk = append(nd.disk, parcel{h.o, b, h.hops + 1, now})
			}
		case "crash":
			st.Fault("crash_restart")
			nd.slots = map[string]*holding{}
			for k, pc := range nd.disk {
				rec := ps[r.N(2)].blank(pc.o.kind, r)
				if x := nd.slots[pc.o.kind]; x != nil && r.P(0.5) {
					rec = x.obj
				}
				if !dec(t, s.ID*1000+k, pc, rec, "restart") {
					return
				}
				nd.slots[pc.o.kind] = &holding{pc.o, rec, pc.hops}
			}
		case "use":
			for k := range objKinds {
				kind := objKinds[(s.Mod(0, len(objKinds))+k)%len(objKinds)]
				if h := nd.slots[kind]; h != nil {
					use(t, s.ID, h.o, h.obj, "decoded")
					return
				}
			}
		}
	})
	st.SimTime += now
	return y.Viol
}

// libEqualsSafe asks for equality; a crash is a violation.
func libEqualsSafe(t *sched.Task, id int, y *Sys, a, b interface{}, kind string) (eq, has bool) {
	o := t.Step(id, func() { eq, has = libEquals(a, b) })
	if o.Panic != "" {
		y.Check(false, "equals-panic", "comparing two objects of kind %s: %s (in %s)", kind, o.Panic, o.Where)
		return false, false
	}
	return
}

// Streams: several polynomials are written one after the other into a transmission buffer that was used before, and read
// back from it.

func genStream(p *run.Plan, r *core.RNG, thorough bool) {
	genParties(p, r)
	n := 4 + r.N(12)
	for k := 0; k < n; k++ {
		p.Add(0, "stream", int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.N(1<<16)), int64(r.U64()>>2))
	}
}

func execStream(p *run.Plan, st *run.Stats) *run.Violation {
	y := &Sys{P: p, St: st}
	ps, ok := twoParties(y)
	if !ok {
		return y.Viol
	}
	buf := make([]byte, 1<<16)
	slotsP := make([]*ring.Poly, 4)
	slotsQP := make([]*rlwe.PolyQP, 4)
	y.Serial(func(t *sched.Task, s *run.Step) {
		r := core.NewRNG(core.H(uint64(s.Arg(3)), p.Seed))
		n := 1 + s.Mod(0, 4)
		type item struct {
			p    *ring.Poly
			qp   *rlwe.PolyQP
			dig  uint64
			len  int
			b32  bool
			raw  bool
			q    *party
			n, l int
		}
		var items []item
		room := 0
		for k := 0; k < n; k++ {
			q := ps[r.N(2)]
			it := item{q: q, b32: r.P(0.25), raw: r.P(0.2)}
			if r.P(0.5) || it.b32 || it.raw {
				it.p = randPoly(r, q.rp.RingQ(), r.N(q.rp.QCount()))
				it.p.IsNTT, it.p.IsMForm = r.P(0.5), r.P(0.5)
				if it.b32 {
					for _, c := range it.p.Coeffs {
						for j := range c {
							c[j] &= 0xffffffff
						}
					}
				}
				it.dig = digPoly(1, it.p, !it.raw)
				it.n, it.l = len(it.p.Coeffs[0]), len(it.p.Coeffs)
			} else {
				qp := rlwe.PolyQP{}
				if r.P(0.8) {
					qp.Q = randPoly(r, q.rp.RingQ(), r.N(q.rp.QCount()))
					qp.Q.IsNTT = r.P(0.5)
				}
				if q.rp.PCount() > 0 && (qp.Q == nil || r.P(0.6)) {
					qp.P = randPoly(r, q.rp.RingP(), r.N(q.rp.PCount()))
					qp.P.IsMForm = r.P(0.5)
				}
				it.qp = &qp
				it.dig = digQP(1, qp, true)
			}
			items = append(items, it)
			room += 64 + 8*(q.rp.QCount()+q.rp.PCount())*q.rp.N()
		}
		if len(buf) < room {
			buf = make([]byte, room)
		}
		pt := 0
		for k := range items {
			it := &items[k]
			var inc, want int
			var err error
			o := t.Step(s.ID*100+k, func() {
				b := buf[pt:]
				if s.Arg(1)&1 == 1 {
					// exactly as much room as announced
					switch {
					case it.qp != nil:
						want = it.qp.GetDataLen(true)
					case it.raw:
						want = it.p.GetDataLen(false)
					case it.b32:
						want = it.p.GetDataLen32(true)
					default:
						want = it.p.GetDataLen(true)
					}
					b = b[:want]
				}
				switch {
				case it.qp != nil:
					inc, err = it.qp.WriteTo(b)
				case it.raw:
					inc, err = it.p.WriteCoeffs(b)
				case it.b32:
					inc, err = it.p.WriteTo32(b)
				default:
					inc, err = it.p.WriteTo(b)
				}
			})
			if !y.Check(o.Panic == "" && err == nil && (want == 0 || inc == want), "write", "writing item %d to a stream: %s %v, %d bytes of %d announced (in %s)", k, o.Panic, err, inc, want, o.Where) {
				return
			}
			it.len = inc
			pt += inc
		}
		pt = 0
		for k := range items {
			it := &items[k]
			var inc int
			var err error
			slot := r.N(4)
			fresh := r.P(0.3)
			used := "new"
			if it.qp != nil {
				if slotsQP[slot] == nil || fresh {
					slotsQP[slot] = &rlwe.PolyQP{}
				} else {
					used = "used"
				}
			} else if slotsP[slot] == nil || fresh {
				slotsP[slot] = new(ring.Poly)
			} else {
				used = "used"
			}
			o := t.Step(s.ID*100+50+k, func() {
				switch {
				case it.qp != nil:
					inc, err = slotsQP[slot].DecodePolyNew(buf[pt:])
				case it.raw:
					x := make([][]uint64, it.l)
					if r.P(0.5) {
						inc, err = ring.DecodeCoeffsNew(pt, it.n, it.l, x, buf)
					} else {
						for i := range x {
							x[i] = make([]uint64, it.n)
						}
						inc, err = ring.DecodeCoeffs(pt, it.n, it.l, x, buf)
					}
					inc -= pt
					slotsP[slot] = &ring.Poly{Coeffs: x}
				case it.b32:
					inc, err = slotsP[slot].DecodePolyNew32(buf[pt:])
				default:
					inc, err = slotsP[slot].DecodePolyNew(buf[pt:])
				}
			})
			if !y.Check(o.Panic == "" && err == nil && inc == it.len, "read", "reading item %d from a stream: %s %v, %d bytes of %d (in %s)", k, o.Panic, err, inc, it.len, o.Where) {
				return
			}
			var d uint64
			if it.qp != nil {
				d = digQP(1, *slotsQP[slot], true)
			} else {
				d = digPoly(1, slotsP[slot], !it.raw)
			}
			y.Check(d == it.dig, "stream-unequal", "item %d (QP %v, 32-bit %v) read from a stream into a %s receiver differs from what was written", k, it.qp != nil, it.b32, used)
			st.StateS("%v/%v/%v/%s", it.qp != nil, it.b32, it.raw, used)
			pt += inc
		}
		st.Log(HB(buf[:pt]))
		st.Fault("buffer_reuse")
	})
	return y.Viol
}
