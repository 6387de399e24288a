package props

import (
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C29", Quick: 70000, Thorough: 900000,
		Rule: "histories of edits and steps, with sleeping and refused contacts; after every step and edit the contacts every body lists are compared with brute force; scenes whose handlers write contact sets back, against twins whose handlers do not; contact sets changed in handlers, against the solver's law; non-trivial: some body listed two or more contacts, a sleeping body listed one, or a written set decided an impulse",
		Subs: []Sub{{"history", 4, c29History}, {"sleep", 3, c29Sleep}, {"write-back", 2, c29WriteBack}, {"written", 3, c29Written}},
	})
}

type c29Pair struct {
	a, b  *WShape
	first int // 1 yes, 0 no, -1 unknown
	sure  bool
	fresh bool // made by the last step: the geometry still shows it
	// what the contact looked like when its bodies were last seen asleep, and where they were
	kept   *cp.ContactPointSet
	ka, kb St
}

type c29 struct {
	*c08
	pairs map[[2]int]*c29Pair
	order [][2]int
	seen  map[[2]int]int // touching in the step before: 1 yes, -1 unknown
}

func newC29(w *World) *c29 {
	m := &c29{c08: &c08{w: w}, pairs: map[[2]int]*c29Pair{}, seen: map[[2]int]int{}}
	w.beforeStep = m.before
	w.afterStep = m.after
	w.afterRemove = func(s *WShape) { m.drop(s) }
	return m
}

func (m *c29) put(p *c29Pair) {
	k := pairKey(p.a, p.b)
	if m.pairs[k] == nil {
		m.order = append(m.order, k)
	}
	m.pairs[k] = p
}

func (m *c29) drop(s *WShape) {
	var keep [][2]int
	for _, k := range m.order {
		if k[0] == s.id || k[1] == s.id {
			delete(m.pairs, k)
		} else {
			keep = append(keep, k)
		}
	}
	m.order = keep
	for _, o := range m.w.shapes {
		if o != s {
			delete(m.seen, pairKey(o, s))
		}
	}
}

func (m *c29) after() {
	w := m.w
	// contacts of bodies that were asleep stay as they were
	old := m.pairs
	oldOrder := m.order
	m.pairs, m.order = map[[2]int]*c29Pair{}, nil
	for _, k := range oldOrder {
		p := old[k]
		if m.asleep[p.a.wb.id] || m.asleep[p.b.wb.id] {
			p.fresh = false
			p.first = -1
			m.put(p)
		}
	}
	for _, e := range m.contacts() {
		k := pairKey(e.a, e.b)
		p := &c29Pair{a: e.a, b: e.b, sure: e.sure, fresh: true}
		switch m.seen[k] {
		case 0:
			p.first = 1
		case -1:
			p.first = -1
		}
		if m.pairs[k] != nil || m.asleep[e.a.wb.id] || m.asleep[e.b.wb.id] {
			p.first = -1
		}
		m.put(p)
	}
	// who touched in this step at all (refused and sensed contacts too)
	for i, a := range w.shapes {
		for _, b := range w.shapes[:i] {
			k := pairKey(a, b)
			if (m.asleep[a.wb.id] || a.wb.typ == cp.BODY_STATIC) && (m.asleep[b.wb.id] || b.wb.typ == cp.BODY_STATIC) {
				if m.seen[k] != 0 {
					m.seen[k] = -1
				}
				continue
			}
			m.seen[k] = w.touching(a, b)
		}
	}
	m.check()
}

// check compares what every body lists with the record.
func (m *c29) check() {
	w, t := m.w, m.w.t
	type view struct {
		n    P
		set  cp.ContactPointSet
		body *WBody
	}
	views := map[[2]int][]view{}
	for _, wb := range w.bodies {
		got := map[[2]int]int{}
		n := 0
		wb.b.EachArbiter(func(arb *cp.Arbiter) {
			n++
			sa, sb := arb.Shapes()
			a, b := sa.UserData.(*WShape), sb.UserData.(*WShape)
			ba, bb := arb.Bodies()
			k := pairKey(a, b)
			got[k]++
			t.Check(ba == wb.b && a.wb == wb && bb == b.wb.b, "body-first", "%v lists a contact of %v on %v and %v on %v: its own shape does not come first", wb, a, a.wb, b, b.wb)
			p := m.pairs[k]
			t.Check(p != nil, "extra-contact", "%v lists a contact of %v and %v, which do not touch, do not count, or are not in the space (step %d, in the space %v %v)", wb, a, b, w.step, a.in, b.in)
			set := arb.ContactPointSet()
			t.Check(set.Count >= 1 && set.Count <= 2 && arb.Count() == set.Count, "count", "%v and %v: %d contact points (Count %d)", a, b, set.Count, arb.Count())
			t.Check(arb.Normal() == set.Normal, "normal", "%v and %v: Normal() %v, but the contact set has %v", a, b, arb.Normal(), set.Normal)
			if p.first >= 0 && p.fresh {
				t.Check(arb.IsFirstContact() == (p.first == 1), "first-contact", "%v and %v: IsFirstContact() is %v; they touched in the step before: %v", a, b, arb.IsFirstContact(), p.first == 0)
			}
			if p.fresh && p.sure {
				nn, pts := setPts(set)
				checkContacts(t, wb.String()+"'s "+a.String()+" with "+b.String(), a.eff, b.eff, nn, pts, 1+4*w.cfg.Size+g(wb.b.Position()).Len()+a.eff.Core[0].Len()+b.eff.Core[0].Len())
			}
			if a.wb.still() && b.wb.still() && k == [2]int{a.id, b.id} {
				ka, kb := snap(a.wb.b), snap(b.wb.b)
				if p.kept != nil && p.ka == ka && p.kb == kb {
					t.Check(set == *p.kept, "asleep-changes", "step %d: the contact of %v and %v, asleep and not moved, was %+v and is %+v", w.step, a, b, *p.kept, set)
					t.Label("kept-asleep")
				}
				p.kept, p.ka, p.kb = &set, ka, kb
			}
			views[k] = append(views[k], view{g(set.Normal), set, wb})
		})
		t.NonTrivialIf(n > 1 || n > 0 && wb.b.IsSleeping())
		t.LabelIf(n > 2, "three-or-more-contacts")
		t.LabelIf(n > 0 && wb.b.IsSleeping(), "listed-asleep")
		for _, k := range m.order {
			p := m.pairs[k]
			if p.a.wb != wb && p.b.wb != wb {
				continue
			}
			if p.sure {
				t.Check(got[k] == 1, "contact-listed", "%v lists its contact of %v and %v %d times (asleep %v)", wb, p.a, p.b, got[k], wb.b.IsSleeping())
			} else {
				t.Check(got[k] <= 1, "contact-listed", "%v lists its contact of %v and %v %d times", wb, p.a, p.b, got[k])
			}
		}
	}
	for _, k := range m.order {
		vs := views[k]
		if len(vs) == 0 {
			continue
		}
		t.Check(len(vs) == 2, "one-sided", "the contact of shapes %v is listed by one of its bodies only", k)
		x, y := vs[0], vs[1]
		same := x.n == y.n.Mul(-1) && x.set.Count == y.set.Count
		for i := 0; i < x.set.Count && same; i++ {
			same = x.set.Points[i].PointA == y.set.Points[i].PointB && x.set.Points[i].PointB == y.set.Points[i].PointA && x.set.Points[i].Distance == y.set.Points[i].Distance
		}
		t.Check(same, "views-differ", "the contact of shapes %v from %v: %+v, from %v: %+v", k, x.body, x.set, y.body, y.set)
	}
}

func c29Run(w *World, min, max, num, den int) {
	t := w.t
	m := newC29(w)
	m.decide()
	w.populate()
	t.List(min, max, func(int) {
		if t.P(num, den) {
			w.Edit()
			m.check2()
		} else {
			w.Step()
		}
	})
}

// check2 is for after an edit: bodies moved by hand no longer show their contacts.
func (m *c29) check2() {
	for _, k := range m.order {
		m.pairs[k].fresh = false
	}
	m.check()
}

func c29History(t *pbt.T) {
	c29Run(newWorld(t, WCfg{Units: true, Rogues: true, Joints: t.P(1, 3), Filters: t.P(1, 3), Sensors: t.Bool(), Retype: t.P(1, 3), Kinematic: true, Hash: t.P(1, 3), Handlers: t.Weighted(2, 1, 1), MaxBodies: 7, Size: t.Log(2, 8)}), 5, 40, 1, 4)
}

func c29Sleep(t *pbt.T) {
	w := newWorld(t, WCfg{Units: true, Rogues: true, Sleep: true, Joints: t.P(1, 3), Filters: t.P(1, 4), Sensors: t.P(1, 3), Retype: t.P(1, 4), Kinematic: t.P(1, 3), Hash: t.P(1, 4), Handlers: t.Weighted(3, 1), NoGravity: true, MaxBodies: 6, Size: t.Log(2, 5)})
	w.sp.IdleSpeedThreshold = t.Log(1, 40)
	w.sp.SleepTimeThreshold = t.Real(0.5, 4) * w.dt
	c29Run(w, 8, 50, 1, 6)
}

// c29WriteBack: a handler that reads every contact set and writes it back changes nothing.
func c29WriteBack(t *pbt.T) {
	mark := t.Mark()
	type frame []St
	play := func(t *pbt.T, write bool) (out []frame) {
		w := newWorld(t, WCfg{Units: true, Rogues: true, Joints: t.P(1, 4), Kinematic: true, Handlers: t.Int(1, 2), MaxBodies: 5, Size: t.Log(2, 5), NoGravity: t.Bool()})
		w.onEvent = func(kind byte, a, b *WShape, arb arbT) {
			if kind != 'p' {
				return
			}
			if write {
				set := arb.ContactPointSet()
				arb.SetContactPointSet(&set)
				back := arb.ContactPointSet()
				t.Check(back.Count == set.Count && g(back.Normal) == g(set.Normal), "write-back", "wrote %+v, read back %+v", set, back)
				for i := 0; i < set.Count; i++ {
					sc := 1 + g(set.Points[i].PointA).Len() + g(a.wb.b.Position()).Len() + g(b.wb.b.Position()).Len()
					t.Check(g(back.Points[i].PointA).Dist(g(set.Points[i].PointA)) < 1e-12*sc && g(back.Points[i].PointB).Dist(g(set.Points[i].PointB)) < 1e-12*sc, "write-back", "wrote %+v, read back %+v", set, back)
				}
			}
		}
		w.populate()
		snapAll := func() {
			var f frame
			for _, wb := range w.bodies {
				f = append(f, snap(wb.b))
			}
			out = append(out, f)
		}
		for i := t.Int(1, 6); i > 0; i-- {
			w.Step()
			snapAll()
		}
		return
	}
	a := play(t, true)
	b := play(t.Again(mark), false)
	for i := range a {
		if i >= len(b) {
			break
		}
		for k := range a[i] {
			x, y := a[i][k], b[i][k]
			// rounding grows through the solver
			tol := 1e-9 * math.Pow(20, float64(i)) * (1 + x.c.Len() + x.v.Len() + math.Abs(x.w))
			t.Check(x.c.Dist(y.c) < tol && x.v.Dist(y.v) < tol && math.Abs(x.w-y.w) < tol, "write-back-changes", "step %d: body %d is %v with contact sets written back and %v without", i+1, k, x, y)
			if x.v.Dist(y.v) > 1e-7*(1+x.v.Len()) { // chaotic: no more to see
				return
			}
		}
	}
	t.LabelIf(len(a) > 2, "written-back")
}

// c29Written: what a handler writes is what the solver uses.
func c29Written(t *pbt.T) {
	sp := cp.NewSpace()
	sp.Iterations = 40
	dt := genDt(t)
	typB := []int{cp.BODY_DYNAMIC, cp.BODY_STATIC, cp.BODY_KINEMATIC}[t.Weighted(3, 1, 1)]
	a := genBody(t, sp, 0, cp.BODY_DYNAMIC, 2, 5)
	b := genBody(t, sp, 1, typB, 2, 5)
	// circles: one contact; the first or the second body's shape may come first
	r := t.Log(0.5, 3)
	a.b.SetPosition(b.b.Position().Add(v(P{1, 0}.Rot(t.Angle()).Mul(r * t.Real(0.3, 1.8)))))
	mk := func(x *PB) *cp.Shape {
		var s *cp.Shape
		if t.Bool() {
			s = cp.NewCircle(x.b, r, cp.Vector{})
		} else {
			s = cp.NewSegment(x.b, cp.Vector{X: -0.2}, cp.Vector{X: 0.2}, r)
		}
		sp.AddShape(s)
		return s
	}
	sa, sb := mk(a), mk(b)
	sa.SetCollisionType(1)
	sb.SetCollisionType(2)
	u := []float64{0, t.F(0, 1.5)}[t.Intn(2)]
	e := []float64{0, t.F(0, 1)}[t.Intn(2)]
	sa.SetFriction(u)
	sb.SetFriction(1)
	sa.SetElasticity(e)
	sb.SetElasticity(1)
	h := sp.NewCollisionHandler(1, 2)
	if t.Bool() {
		h = sp.NewCollisionHandler(2, 1)
	}
	ang, off, depth, where := t.F(-1, 1), genP(t, 1), t.F(-0.2, 1), t.Intn(2)
	how := t.Intn(4) // everything anew, points moved along, normal turned, one point moved
	n, pa, pb := P{}, P{}, P{}
	calls := 0
	edit := func(arb *cp.Arbiter) {
		calls++
		set := arb.ContactPointSet()
		flip := false
		if s, _ := arb.Shapes(); s != sa {
			flip = true
		}
		n = g(set.Normal)
		if how == 0 || how == 2 {
			n = n.Rot(ang)
		}
		set.Normal = v(n)
		for i := 0; i < set.Count; i++ {
			pa, pb = g(set.Points[i].PointA), g(set.Points[i].PointB)
			switch how {
			case 0:
				q := pa.Lerp(pb, 0.5).Add(off)
				pa, pb = q.Add(n.Mul(depth/2)), q.Sub(n.Mul(depth/2))
				set.Points[i].Distance = 12345 // not used
			case 1:
				pa, pb = pa.Add(off), pb.Add(off)
			case 3:
				pb = pb.Add(off)
			}
			set.Points[i].PointA, set.Points[i].PointB = v(pa), v(pb)
			depth = pa.Sub(pb).Dot(n)
		}
		arb.SetContactPointSet(&set)
		back := arb.ContactPointSet()
		t.Check(g(back.Normal).Dist(n) < 1e-12, "written-normal", "wrote normal %v, read %v", n, back.Normal)
		if back.Count == 1 {
			ga, gb := g(back.Points[0].PointA), g(back.Points[0].PointB)
			t.Check(ga.Dist(pa) < 1e-9*(1+pa.Len()) && gb.Dist(pb) < 1e-9*(1+pb.Len()), "written-points", "wrote points %v and %v, read %v and %v", pa, pb, ga, gb)
			t.Check(math.Abs(back.Points[0].Distance+depth) < 1e-9*(1+math.Abs(depth)+pa.Len()+pb.Len()), "written-distance", "wrote points %v and %v along %v, read distance %v", pa, pb, n, back.Points[0].Distance)
		}
		if flip {
			n = n.Mul(-1)
			pa, pb = pb, pa
		}
	}
	count := 0
	if where == 0 {
		h.PreSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool {
			count = arb.Count()
			edit(arb)
			return true
		}
	} else {
		h.BeginFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool { // the first step's set is there already
			count = arb.Count()
			edit(arb)
			return true
		}
	}
	var total P
	h.PostSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) {
		total = g(arb.TotalImpulse())
		if s, _ := arb.Shapes(); s == sa {
			total = total.Mul(-1) // on b
		}
	}
	v0a, v0b := snap(a.b), snap(b.b)
	sp.Step(dt)
	if calls != 1 || count != 1 {
		t.Discard("no single contact")
	}
	A, B := snap(a.b), snap(b.b)
	// the relative velocity of the written points, before
	ra, rb := pa.Sub(A.c), pb.Sub(B.c)
	velAt := func(s St, r P) P { return s.v.Add(r.Left().Mul(s.w)) }
	vn0 := velAt(v0b, rb).Sub(velAt(v0a, ra)).Dot(n)
	J := v0a.v.Sub(A.v).Mul(A.m)
	sc := (1 + v0a.v.Len() + v0b.v.Len() + (math.Abs(v0a.w)+math.Abs(v0b.w))*(1+ra.Len()+rb.Len())) * (A.m + 1)
	tol := 1e-9*sc + 1e-9*J.Len()
	t.Check(total.Dist(J) <= tol*10, "written-total", "the arbiter reports the impulse %v on b, a lost %v", total, J)
	jn, jt := J.Dot(n), J.Dot(n.Left())
	t.Check(jn >= -tol && math.Abs(jt) <= u*math.Max(jn, 0)+tol*(1+u), "written-normal-used", "impulse %v on b: normal part %v, tangential %v along the written normal %v, friction %v", J, jn, jt, n, u)
	if A.iInv != 0 {
		want := v0a.w - A.iInv*ra.Cross(J)
		t.Check(math.Abs(A.w-want) <= (1e-9*(1+math.Abs(want))+A.iInv*ra.Len()*tol)*10, "written-point-used", "a turns at %v, an impulse %v at the written point %v would make it %v", A.w, J.Mul(-1), pa, want)
	}
	if typB == cp.BODY_DYNAMIC && B.iInv != 0 {
		want := v0b.w + B.iInv*rb.Cross(J)
		t.Check(math.Abs(B.w-want) <= (1e-9*(1+math.Abs(want))+B.iInv*rb.Len()*tol)*10, "written-point-used", "b turns at %v, an impulse %v at the written point %v would make it %v", B.w, J, pb, want)
	}
	// the points stop approaching (or bounce) along the written normal, when friction is out of it
	vn1 := velAt(B, rb).Sub(velAt(A, ra)).Dot(n)
	if u == 0 {
		if vn0 < -1e-6 {
			t.Check(math.Abs(vn1+e*vn0) <= 1e-7*sc, "written-solved", "along the written normal %v the points at %v and %v approached at %v and leave at %v, elasticity %v", n, pa, pb, -vn0, vn1, e)
			t.NonTrivial()
			t.Label("written-bounce")
		} else if vn0 > 1e-6 {
			t.Check(J.Len() <= tol, "written-solved", "the written points part at %v and are pushed by %v", vn0, J)
		}
	}
	t.NonTrivialIf(jn > 1e-3)
	// overlap by the written points is taken away by the next move
	sp.RemoveShape(sb)
	coef := 1 - math.Pow(math.Pow(0.9, 60), dt)
	want := coef * math.Max(0, depth-0.1) / dt
	P0a, P0b := A, B
	sp.Step(dt)
	A2, B2 := snap(a.b), snap(b.b)
	bias := func(s0, s1 St, r P) P {
		vb := s1.c.Sub(s0.c).Mul(1 / dt).Sub(s0.v)
		wb := (s1.a-s0.a)/dt - s0.w
		return vb.Add(r.Left().Mul(wb))
	}
	got := bias(P0b, B2, rb).Sub(bias(P0a, A2, ra)).Dot(n)
	t.Check(math.Abs(got-want) <= 1e-7*(sc+want)+1e-10/dt, "written-depth-used", "written points overlap by %v along %v: they are moved apart at %v, want %v (slop 0.1, dt %v)", depth, n, got, want, dt)
	t.LabelIf(want > 0, "written-overlap")
}
