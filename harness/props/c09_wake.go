package props

import (
	"fmt"
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C09", Quick: 80000, Thorough: 700000,
		Rule: "scenes of linked sets of bodies that all fell asleep (linked by joints and contacts, some on static shapes), then disturbed through one of some forty API calls, directly, in queries, iterations, collision and post-step callbacks; also whole histories, and resting scenes compared with a twin that never sleeps; non-trivial: a sleeping set of two or more bodies was woken while another set slept on, or a sleeping set was resumed",
		Subs: []Sub{{"disturb", 6, c09Disturb}, {"history", 3, c09History}, {"resume", 2, c09Resume}},
		Pins: []Pin{{"gravity-wakes-every-set", c09Gravity}, {"surface-velocity", c09Surface}},
	})
}

// sets lists the linked sets of sleeping bodies, by the contacts and joints they rest in; nil if a
// contact is too close to call.
func (w *World) sets() (root []int, ok bool) {
	root = make([]int, len(w.bodies))
	for i := range root {
		root[i] = i
	}
	link := func(a, b *WBody) {
		if a.typ == cp.BODY_DYNAMIC && b.typ == cp.BODY_DYNAMIC && a.b.IsSleeping() && b.b.IsSleeping() {
			root[find(root, a.id)] = find(root, b.id)
		}
	}
	for i, a := range w.shapes {
		for _, b := range w.shapes[:i] {
			if a.sensor || b.sensor || w.ruledOut(a, b) {
				continue
			}
			if !a.wb.b.IsSleeping() && !b.wb.b.IsSleeping() {
				continue
			}
			switch w.touching(a, b) {
			case 1:
				link(a.wb, b.wb)
			case -1:
				return nil, false
			}
		}
	}
	for _, j := range w.joints {
		if j.in {
			link(j.a, j.b)
		}
	}
	return root, true
}

type still struct {
	p, v, f P
	a, w, t float64
	m, i    float64
}

func stillOf(b *cp.Body) still {
	return still{g(b.Position()), g(b.Velocity()), g(b.Force()), b.Angle(), b.AngularVelocity(), b.Torque(), b.Mass(), b.Moment()}
}

func (w *World) stills() []still {
	var out []still
	for _, wb := range w.bodies {
		out = append(out, stillOf(wb.b))
	}
	return out
}

// sameStill: a body that slept did not change in any bit.
func (w *World) frozen(before []still, asleep []bool, what string) {
	for i, s := range before {
		if !asleep[i] || !w.bodies[i].b.IsSleeping() {
			continue
		}
		n := stillOf(w.bodies[i].b)
		w.t.Check(n == s, "moved-asleep", "%v slept through %s and went from %+v to %+v", w.bodies[i], what, s, n)
	}
}

func (w *World) asleep() []bool {
	var out []bool
	for _, wb := range w.bodies {
		out = append(out, wb.b.IsSleeping())
	}
	return out
}

// look reads and queries the world in every way that must change nothing.
func (w *World) look() {
	t := w.t
	sp := w.sp
	p := genP(t, 60)
	if wb := w.bodies[t.Intn(len(w.bodies))]; t.Bool() {
		p = g(wb.b.Position())
	}
	all := cp.SHAPE_FILTER_ALL
	switch t.Intn(9) {
	case 0:
		sp.PointQueryNearest(v(p), t.F(0, 50), all)
	case 1:
		sp.BBQuery(cp.NewBBForCircle(v(p), t.F(1, 30)), all, func(s *cp.Shape, _ interface{}) { s.Body().IsSleeping(); s.BB() }, nil)
	case 2:
		sp.SegmentQuery(v(p), v(genP(t, 200)), t.F(0, 2), all, func(s *cp.Shape, _, _ cp.Vector, _ float64, _ interface{}) {}, nil)
	case 3:
		sp.SegmentQueryFirst(v(p), v(genP(t, 200)), t.F(0, 2), all)
	case 4:
		b := cp.NewKinematicBody()
		b.SetPosition(v(p))
		s := cp.NewCircle(b, t.F(1, 20), cp.Vector{})
		sp.ShapeQuery(s, func(*cp.Shape, *cp.ContactPointSet) {})
	case 5:
		if s := w.pickShape(func(s *WShape) bool { return s.in }); s != nil {
			sp.ShapeQuery(s.s, func(*cp.Shape, *cp.ContactPointSet) {})
		}
	case 6:
		sp.EachBody(func(b *cp.Body) {
			b.Position()
			b.Velocity()
			b.KineticEnergy()
			b.IdleTime()
			b.EachShape(func(*cp.Shape) {})
			b.EachConstraint(func(c *cp.Constraint) { c.MaxForce(); c.Class.GetImpulse() })
			b.EachArbiter(func(a *cp.Arbiter) { a.ContactPointSet(); a.TotalImpulse() })
		})
	case 7:
		sp.EachShape(func(s *cp.Shape) { s.PointQuery(v(p)); s.Friction(); s.MassInfo() })
		sp.EachConstraint(func(c *cp.Constraint) { c.ErrorBias() })
	case 8:
		wb := w.bodies[t.Intn(len(w.bodies))]
		wb.b.LocalToWorld(v(p))
		wb.b.VelocityAtWorldPoint(v(p))
		wb.b.CenterOfGravity()
		sp.ContainsBody(wb.b)
		sp.Gravity()
		sp.TimeStep()
	}
}

// c09Scene builds linked bodies and lets them fall asleep.
func c09Scene(t *pbt.T, clock bool) (*World, *c08) {
	w := newWorld(t, WCfg{NoGravity: true, Size: 10, Kinematic: true})
	w.sp.SetDamping(1)
	w.sp.IdleSpeedThreshold = t.Log(0.1, 5)
	w.sp.SleepTimeThreshold = t.Real(1.2, 3.5) * w.dt // long enough that a body woken inside a step is still awake after it
	if t.P(1, 4) {
		w.useHash()
	}
	m := newC08(w)
	n := t.Int(2, 14)
	for i := 0; i < n; i++ {
		wb := &WBody{id: len(w.bodies), typ: []int{cp.BODY_DYNAMIC, cp.BODY_STATIC}[t.Weighted(6, 1)], m: t.Log(0.2, 20), i: t.Log(0.2, 50)}
		if wb.typ == cp.BODY_DYNAMIC {
			wb.b = cp.NewBody(wb.m, wb.i)
		} else {
			wb.b = cp.NewStaticBody()
			wb.rogue = t.P(1, 4)
		}
		wb.b.SetPosition(v(P{float64(i) * 10, 0}))
		w.bodies = append(w.bodies, wb)
		if !wb.rogue {
			w.sp.AddBody(wb.b)
			wb.in = true
		}
		t.Logf("%v: type %d at %v rogue=%v", wb, wb.typ, wb.b.Position(), wb.rogue)
	}
	for i := 1; i <= n; i++ {
		k := i - 1 // sometimes the space's own static body
		if t.P(1, 4) {
			continue
		}
		if t.P(1, 3) {
			k = t.Intn(i)
		}
		m.link(w.bodies[i], w.bodies[k])
	}
	for _, wb := range w.bodies[1:] { // everybody has a shape, far from the others
		if len(wb.shapes) == 0 || t.P(1, 4) {
			w.plainShape(wb, Def{Kind: "circle", Pts: []P{{0, float64(-5 * (1 + len(wb.shapes)))}}, R: 1})
		}
	}
	if clock {
		// a turning kinematic body with a sensor over a static shape: its callbacks run in every step
		k := &WBody{id: len(w.bodies), typ: cp.BODY_KINEMATIC, m: 1, i: 1, b: cp.NewKinematicBody()}
		k.b.SetPosition(cp.Vector{Y: -5000})
		k.b.SetAngularVelocity(1)
		w.bodies = append(w.bodies, k)
		w.sp.AddBody(k.b)
		k.in = true
		s := w.plainShape(k, Def{Kind: "circle", Pts: []P{{}}, R: 1})
		s.s.SetSensor(true)
		s.sensor = true
		s.s.SetCollisionType(77)
		w.plainShape(w.bodies[0], Def{Kind: "circle", Pts: []P{{0, -5000}}, R: 1})
	}
	return w, m
}

func (w *World) plainShape(wb *WBody, d Def) *WShape {
	ws := &WShape{id: len(w.shapes), wb: wb, filter: cp.SHAPE_FILTER_ALL, d: d}
	ws.s = d.Make(wb.b)
	ws.s.UserData = ws
	w.shapes = append(w.shapes, ws)
	w.addShape(ws)
	w.t.Logf("%v on %v: %v", ws, wb, d)
	return ws
}

// rest stops everything and steps until all that can sleep sleeps.
func (w *World) rest() {
	for _, wb := range w.bodies {
		if wb.typ == cp.BODY_DYNAMIC && !wb.b.IsSleeping() {
			wb.b.SetVelocity(0, 0)
			wb.b.SetAngularVelocity(0)
			wb.b.SetForce(cp.Vector{})
			wb.b.SetTorque(0)
		}
	}
	for i := 0; i < 12; i++ {
		all := true
		for _, wb := range w.bodies {
			if wb.typ == cp.BODY_DYNAMIC && wb.in && !wb.b.IsSleeping() {
				all = false
			}
		}
		if all {
			return
		}
		w.Step()
	}
}

func c09Disturb(t *pbt.T) {
	w, _ := c09Scene(t, true)
	w.beforeStep, w.afterStep = nil, nil
	// callbacks of the clock
	var inCallback func()
	h := w.sp.NewWildcardCollisionHandler(77)
	fire := func() {
		if f := inCallback; f != nil {
			inCallback = nil
			f()
		}
	}
	h.PreSolveFunc = func(*cp.Arbiter, *cp.Space, interface{}) bool { fire(); return true }
	w.rest()
	t.List(1, 6, func(int) {
		w.rest()
		root, ok := w.sets()
		if !ok {
			t.Discard("too close to call")
		}
		before, was := w.stills(), w.asleep()
		n := 0
		for _, x := range was {
			if x {
				n++
			}
		}
		if n == 0 {
			t.Discard("nobody sleeps")
		}
		for k := t.Intn(3); k > 0; k-- {
			w.look()
		}
		moving := w.pickBody(func(x *WBody) bool { return x.typ == cp.BODY_DYNAMIC && x.in && !x.b.IsSleeping() })
		if moving == nil && t.Bool() {
			w.Step()
		}
		for i := range was {
			t.Check(!was[i] || w.bodies[i].b.IsSleeping(), "woken-by-looking", "%v was asleep and was woken by reading, queries or a step in which nothing touched it", w.bodies[i])
		}
		w.frozen(before, was, "queries and a step")
		w.disturb(root, was, &inCallback)
	})
}

// disturb makes one change in one context and checks who is awake after it.
func (w *World) disturb(root []int, was []bool, inCallback *func()) {
	t, sp := w.t, w.sp
	wb := w.pickBody(func(b *WBody) bool { return b.typ == cp.BODY_DYNAMIC && was[b.id] })
	if wb == nil {
		t.Discard("nobody sleeps")
	}
	b := wb.b
	hit := map[int]bool{find(root, wb.id): true} // sets that must wake
	free := map[int]bool{}                       // sets that may
	name := ""
	var do func()
	locked := true // may be done while the space is locked
	shape := func() *WShape {
		if len(wb.shapes) == 0 {
			return nil
		}
		return wb.shapes[t.Intn(len(wb.shapes))]
	}
	var joint *WJoint
	for _, j := range w.joints {
		if j.in && (j.a == wb || j.b == wb) && (joint == nil || t.Bool()) {
			joint = j
		}
	}
	hitBody := func(x *WBody) {
		if was[x.id] {
			hit[find(root, x.id)] = true
		}
	}
	val := func() float64 { return t.F(-3, 3) }
	vv := func() cp.Vector { return cp.Vector{X: val(), Y: val()} }
	s := shape()
	kind := t.Intn(38)
	switch {
	case kind == 0:
		p := b.Position().Add(vv())
		name, do = "SetPosition", func() { b.SetPosition(p) }
	case kind == 1:
		a := val()
		name, do = "SetAngle", func() { b.SetAngle(a) }
	case kind == 2:
		q := vv()
		name, do = "SetVelocity", func() { b.SetVelocity(q.X, q.Y) }
	case kind == 3:
		q := vv()
		name, do = "SetVelocityVector", func() { b.SetVelocityVector(q) }
	case kind == 4:
		a := val()
		name, do = "SetAngularVelocity", func() { b.SetAngularVelocity(a) }
	case kind == 5:
		q := vv()
		name, do = "SetForce", func() { b.SetForce(q) }
	case kind == 6:
		a := val()
		name, do = "SetTorque", func() { b.SetTorque(a) }
	case kind == 7:
		q, r := vv(), vv()
		name, do = "ApplyForceAtWorldPoint", func() { b.ApplyForceAtWorldPoint(q, r) }
	case kind == 8:
		q, r := vv(), vv()
		name, do = "ApplyForceAtLocalPoint", func() { b.ApplyForceAtLocalPoint(q, r) }
	case kind == 9:
		q, r := vv(), vv()
		name, do = "ApplyImpulseAtWorldPoint", func() { b.ApplyImpulseAtWorldPoint(q, r) }
	case kind == 10:
		q, r := vv(), vv()
		name, do = "ApplyImpulseAtLocalPoint", func() { b.ApplyImpulseAtLocalPoint(q, r) }
	case kind == 11:
		a := t.Log(0.3, 5)
		name, do = "SetMass", func() { b.SetMass(a) }
	case kind == 12:
		a := t.Log(0.3, 5)
		name, do = "SetMoment", func() { b.SetMoment(a) }
	case kind == 13:
		name, do = "Activate", func() { b.Activate() }
	case kind == 14:
		locked = false
		typ := []int{cp.BODY_KINEMATIC, cp.BODY_STATIC}[t.Intn(2)]
		for _, j := range w.joints { // a joint needs something that can move
			if j.in && (j.a == wb && j.b.typ != cp.BODY_DYNAMIC || j.b == wb && j.a.typ != cp.BODY_DYNAMIC) {
				return
			}
		}
		name, do = fmt.Sprintf("SetType %d", typ), func() { w.setType(wb, typ) }
	case s != nil && kind == 15:
		a := t.F(0, 2)
		name, do = "SetFriction", func() { s.s.SetFriction(a) }
	case s != nil && kind == 16:
		a := t.F(0, 1)
		name, do = "SetElasticity", func() { s.s.SetElasticity(a) }
	case s != nil && kind == 17:
		q := vv()
		name, do = "SetSurfaceV", func() { s.s.SetSurfaceV(q) }
	case s != nil && kind == 18:
		name, do = "SetSensor", func() { s.s.SetSensor(!s.sensor); s.sensor = !s.sensor }
	case s != nil && kind == 19:
		name, do = "SetCollisionType", func() { s.s.SetCollisionType(3) }
	case s != nil && kind == 20:
		f := genFilter(t)
		name, do = "SetFilter", func() { s.s.SetFilter(f); s.filter = f }
	case s != nil && (kind == 21 || kind == 22):
		a := t.Log(0.3, 5)
		name, do = "shape SetMass", func() { s.s.SetMass(a) }
		if kind == 22 {
			name, do = "SetDensity", func() { s.s.SetDensity(a) }
		}
	case joint != nil && kind >= 23 && kind <= 27:
		hitBody(joint.a)
		hitBody(joint.b)
		a := t.F(0, 100)
		c := joint.c
		switch kind {
		case 23:
			name, do = "SetMaxForce", func() { c.SetMaxForce(a) }
		case 24:
			name, do = "SetMaxBias", func() { c.SetMaxBias(a) }
		case 25:
			name, do = "SetErrorBias", func() { c.SetErrorBias(a / 100) }
		case 26:
			name, do = "SetCollideBodies", func() { c.SetCollideBodies(!joint.collide); joint.collide = !joint.collide }
		case 27:
			name, do = "ActivateBodies", func() { c.ActivateBodies() }
		}
	case kind == 28:
		locked = false
		d := Def{Kind: "circle", Pts: []P{{0, -5 * float64(1+len(wb.shapes))}}, R: 1}
		name, do = "AddShape", func() { w.plainShape(wb, d) }
	case s != nil && kind == 29:
		locked = false
		name, do = "RemoveShape", func() {
			w.removeShape(s)
			if s.s.Mass() > 0 {
				b.SetMass(wb.m)
				b.SetMoment(wb.i)
			}
		}
	case kind == 30:
		locked = false
		o := w.pickBody(func(x *WBody) bool { return x != wb && (x.in || x.rogue) })
		hitBody(o)
		name, do = "AddConstraint", func() {
			j := &WJoint{a: wb, b: o, collide: true}
			if t.Bool() {
				j.a, j.b = o, wb
			}
			j.c = cp.NewSlideJoint(j.a.b, j.b.b, cp.Vector{}, cp.Vector{}, 0, 1e6)
			j.c.UserData = j
			w.joints = append(w.joints, j)
			sp.AddConstraint(j.c)
			j.in = true
		}
	case joint != nil && kind == 31:
		locked = false
		hitBody(joint.a)
		hitBody(joint.b)
		name, do = "RemoveConstraint", func() { w.removeJoint(joint) }
	case kind == 32:
		locked = false
		for _, j := range w.joints {
			if j.in && (j.a == wb || j.b == wb) {
				hitBody(j.a)
				hitBody(j.b)
			}
		}
		name, do = "RemoveBody", func() { w.removeBody(wb) }
	case kind == 33:
		for i, x := range was {
			if x {
				hit[find(root, i)] = true
			}
		}
		q := vv()
		name, do = "SetGravity", func() { sp.SetGravity(q) }
	case kind >= 34 && kind <= 36:
		// what lies on a static body
		st := w.pickBody(func(x *WBody) bool { return x.typ == cp.BODY_STATIC && len(x.shapes) > 0 })
		if st == nil {
			return
		}
		ss := st.shapes[t.Intn(len(st.shapes))]
		delete(hit, find(root, wb.id))
		on := func(ss *WShape) {
			for _, o := range w.shapes {
				if o.in && was[o.wb.id] && !o.sensor && !ss.sensor && !w.ruledOut(o, ss) && w.touching(o, ss) == 1 {
					hitBody(o.wb)
				}
			}
		}
		switch {
		case kind == 34:
			on(ss)
			locked = false
			name, do = "removal of a static shape", func() { w.removeShape(ss) }
		case kind == 35:
			on(ss)
			name, do = "ActivateStatic of a shape", func() { st.b.ActivateStatic(ss.s) }
		default:
			for _, ss := range st.shapes {
				on(ss)
			}
			name, do = "ActivateStatic(nil)", func() { st.b.ActivateStatic(nil) }
			if t.Bool() && st.id > 0 && st.in {
				locked = false
				for _, j := range w.joints {
					if j.in && (j.a == st || j.b == st) {
						hitBody(j.a)
						hitBody(j.b)
					}
				}
				name, do = "SetType of a static body", func() { w.setType(st, cp.BODY_DYNAMIC) }
			}
		}
	default:
		// a touch by a moving body, in the next step
		if s == nil || s.sensor || w.pickBody(func(x *WBody) bool { return x.typ == cp.BODY_DYNAMIC && x.in && !x.b.IsSleeping() }) != nil {
			return
		}
		p := s.place().Core[0]
		k := &WBody{id: len(w.bodies), typ: cp.BODY_KINEMATIC, m: 1, i: 1, b: cp.NewKinematicBody()}
		if t.Bool() {
			k.typ, k.b = cp.BODY_DYNAMIC, cp.NewBody(1, 1)
		}
		k.b.SetPosition(v(p.Add(P{0.3, 0.2})))
		w.bodies = append(w.bodies, k)
		sp.AddBody(k.b)
		k.in = true
		ks := w.plainShape(k, Def{Kind: "circle", Pts: []P{{}}, R: 0.4})
		for _, o := range w.shapes {
			if o.in && o.wb != k && was[o.wb.id] && !o.sensor && !w.ruledOut(o, ks) {
				switch w.touching(o, ks) {
				case 1:
					hitBody(o.wb)
				case -1:
					free[find(root, o.wb.id)] = true
				}
			}
		}
		hit = dropOnly(hit, find(root, wb.id), w.touching(s, ks) == 1)
		t.Logf("a moving body touches %v", wb)
		w.Step()
		w.checkWoken(root, was, hit, free, "a touch", wb)
		return
	}
	if do == nil {
		return
	}
	before := w.stills()
	where := 0
	if locked {
		where = t.Intn(8)
	} else if t.P(1, 4) {
		where = 7
	}
	if (where == 5 || where == 6) && w.pickBody(func(x *WBody) bool { return x.typ == cp.BODY_DYNAMIC && x.in && !x.b.IsSleeping() }) != nil {
		where = 1 // what still moves may touch any set in a step
	}
	t.Logf("%s on %v, in context %d", name, wb, where)
	t.Label("wake:" + name)
	t.LabelIf(where > 0, fmt.Sprintf("context:%d", where))
	ran := false
	act := func() {
		if ran {
			return
		}
		ran = true
		do()
		w.checkWoken(root, was, hit, free, name, wb)
	}
	// a spatial hash walks over every cell of the box
	far := cp.NewBBForCircle(w.bodies[1].b.Position(), 50)
	switch where {
	case 0:
		act()
	case 1:
		sp.EachBody(func(*cp.Body) { act() })
	case 2:
		sp.EachShape(func(*cp.Shape) { act() })
	case 3:
		sp.BBQuery(far, cp.SHAPE_FILTER_ALL, func(*cp.Shape, interface{}) { act() }, nil)
	case 4:
		sp.SegmentQuery(cp.Vector{X: -100, Y: -5}, cp.Vector{X: 100, Y: -4.9}, 1, cp.SHAPE_FILTER_ALL, func(*cp.Shape, cp.Vector, cp.Vector, float64, interface{}) { act() }, nil)
	case 5, 6:
		*inCallback = act
		w.Step()
		*inCallback = nil
	case 7:
		scheduled := false
		sp.EachBody(func(x *cp.Body) { // runs when the iteration ends
			if !scheduled {
				scheduled = true
				sp.AddPostStepCallback(func(*cp.Space, interface{}, interface{}) { act() }, nil, nil)
			}
		})
	}
	if !ran {
		t.Label("context-without-callback")
		return
	}
	w.checkWoken(root, was, hit, free, name+" and the end of the call it was in", wb)
	w.frozen(before, was, name+" on another set")
	nsets := map[int]int{}
	for i, x := range was {
		if x {
			nsets[find(root, i)]++
		}
	}
	for r := range hit {
		if nsets[r] > 1 && len(nsets) > len(hit) {
			t.NonTrivial()
		}
	}
	// everybody woken moves with its velocity again
	if len(hit) > 0 && t.Bool() {
		w.Step()
		p := map[*WBody]St{}
		for i, x := range was {
			wb := w.bodies[i]
			if x && wb.in && wb.typ == cp.BODY_DYNAMIC && hit[find(root, i)] && !wb.b.IsSleeping() {
				wb.b.SetVelocity(3, 4)
				p[wb] = snap(wb.b)
			}
		}
		if len(p) == 0 {
			return
		}
		w.Step()
		for i := range was {
			wb := w.bodies[i]
			if s, ok := p[wb]; ok {
				d := snap(wb.b).c.Sub(s.c)
				t.Check(d.Len() > 1e-4*w.dt || w.dt == 0, "woken-but-still", "%v was woken, got velocity (3,4) and did not move in a step of %v s", wb, w.dt)
			}
		}
	}
	if name == "SetGravity" {
		sp.SetGravity(cp.Vector{})
	}
}

func dropOnly(m map[int]bool, k int, keep bool) map[int]bool {
	if !keep {
		delete(m, k)
	}
	return m
}

func (w *World) checkWoken(root []int, was []bool, hit, free map[int]bool, what string, on *WBody) {
	for i, x := range was {
		if !x || free[find(root, i)] {
			continue
		}
		wb := w.bodies[i]
		asleep := wb.b.IsSleeping()
		if hit[find(root, i)] {
			w.t.Check(!asleep, "not-woken", "%v still sleeps after %s (on %v), which disturbs the set it sleeps in", wb, what, on)
		} else {
			w.t.Check(asleep, "woken-in-vain", "%v was woken by %s (on %v), which has nothing to do with the set it sleeps in", wb, what, on)
		}
	}
}

// c09History: in any history, sleepers stay put, and the members of a set wake together.
func c09History(t *pbt.T) {
	w := newWorld(t, WCfg{Sleep: true, Joints: t.P(2, 3), Filters: t.P(1, 4), Sensors: t.P(1, 3), Retype: t.P(1, 3), Kinematic: t.Bool(), Hash: t.P(1, 4), NoGravity: t.P(3, 4), MaxBodies: 7, Size: t.Log(2, 8)})
	w.sp.IdleSpeedThreshold = t.Log(0.1, 20)
	w.sp.SleepTimeThreshold = t.Real(0.5, 6) * w.dt
	var before []still
	var was []bool
	w.beforeStep = func() { before, was = w.stills(), w.asleep() }
	w.afterStep = func() { w.frozen(before, was, "a step") }
	w.populate()
	for _, wb := range w.bodies {
		if wb.typ == cp.BODY_DYNAMIC && t.P(2, 3) {
			wb.b.SetVelocity(0, 0)
			wb.b.SetAngularVelocity(0)
		}
	}
	t.List(10, 60, func(int) {
		root, ok := w.sets()
		was := w.asleep()
		n := len(was)
		if t.P(1, 4) {
			w.Edit()
		} else {
			w.Step()
		}
		if !ok {
			return
		}
		w.together(root, was, n)
	})
}

func (w *World) together(root []int, was []bool, n int) {
	t := w.t
	first := map[int]*WBody{}
	size := map[int]int{}
	woke := 0
	for i := 0; i < n; i++ {
		if !was[i] {
			continue
		}
		r := find(root, i)
		wb := w.bodies[i]
		size[r]++
		o := first[r]
		if o == nil {
			first[r] = wb
			if !wb.b.IsSleeping() {
				woke++
			}
			continue
		}
		t.Check(o.b.IsSleeping() == wb.b.IsSleeping(), "woken-apart", "%v and %v slept in one set: now asleep %v and %v", o, wb, o.b.IsSleeping(), wb.b.IsSleeping())
		if !wb.b.IsSleeping() {
			t.Label("set-woken")
			if woke < len(first) {
				t.NonTrivial()
			}
		}
	}
}

// c09Resume: a resting scene that slept and was woken goes on like its twin that never slept.
func c09Resume(t *pbt.T) {
	gr := t.F(5, 60)
	dt := 1.0 / 60
	iters := t.Int(1, 12)
	n := t.Int(1, 4)
	kindS := make([]Def, n)
	m := make([]float64, n)
	hang := t.P(1, 3)
	for i := range kindS {
		wd := t.F(1.5, 3)
		d := Def{Kind: "box", W: wd, H: t.F(0.5, 1.2)}
		kindS[i] = d
		m[i] = t.Log(0.5, 5)
	}
	asleepFor := t.Int(1, 30)
	waker := t.Intn(n)
	how := t.Intn(4)
	order := t.Intn(1 << uint(n))
	link := make([]int, n)
	for i := range link {
		link[i] = t.Weighted(3, 1, 1)
	}
	build := func(thr float64) (*cp.Space, []*cp.Body) {
		sp := cp.NewSpace()
		sp.SetGravity(cp.Vector{Y: -gr})
		sp.SetDamping(0.3)
		sp.Iterations = uint(iters)
		sp.SleepTimeThreshold = thr
		sp.IdleSpeedThreshold = 0
		seg := cp.NewSegment(sp.StaticBody, cp.Vector{X: -20}, cp.Vector{X: 20}, 0)
		seg.SetFriction(1)
		sp.AddShape(seg)
		var bs []*cp.Body
		y := 0.0
		for i, d := range kindS {
			b := cp.NewBody(m[i], cp.MomentForBox(m[i], d.W, d.H))
			b.SetPosition(cp.Vector{Y: y + d.H/2})
			y += d.H
			if hang {
				b.SetPosition(cp.Vector{Y: 10 + float64(i)*3})
			}
			s := d.Make(b)
			s.SetFriction(1)
			sp.AddBody(b)
			sp.AddShape(s)
			bs = append(bs, b)
		}
		if hang { // a chain hanging down from above
			for i := range bs {
				top := sp.StaticBody
				at := cp.Vector{Y: bs[len(bs)-1].Position().Y + 3}
				if i < len(bs)-1 {
					top = bs[i+1]
					at = top.Position()
				}
				a, b := bs[i], top
				pa, pb := at, at // where each end is held
				if link[i] == 1 {
					pa = a.Position()
				}
				if order>>uint(i)&1 == 1 {
					a, b, pa, pb = b, a, pb, pa
				}
				la, lb := a.WorldToLocal(pa), b.WorldToLocal(pb)
				j := cp.NewPivotJoint2(a, b, la, lb)
				switch link[i] {
				case 1:
					j = cp.NewPinJoint(a, b, la, lb)
				case 2:
					j = cp.NewGrooveJoint(a, b, la.Add(cp.Vector{X: -1}), la.Add(cp.Vector{X: 1}), lb)
				}
				sp.AddConstraint(j)
			}
		}
		return sp, bs
	}
	thr := float64(t.Int(150, 200)) * dt
	A, as := build(cp.INFINITY)
	B, bs := build(thr)
	t.Logf("n=%d hang=%v gravity %v iterations %d boxes %v masses %v", n, hang, gr, iters, kindS, m)
	slept := 0
	for i := 0; i < 500 && slept < asleepFor; i++ {
		A.Step(dt)
		B.Step(dt)
		all := true
		for _, b := range bs {
			all = all && b.IsSleeping()
		}
		if all {
			slept++
		}
	}
	if slept < asleepFor {
		t.Discard("did not fall asleep")
	}
	var r float64
	gap := 0.0
	for i := range as {
		r = math.Max(r, g(as[i].Velocity()).Len()+math.Abs(as[i].AngularVelocity()))
		gap = math.Max(gap, g(as[i].Position()).Dist(g(bs[i].Position()))+math.Abs(as[i].Angle()-bs[i].Angle()))
	}
	if r > 1e-6*gr || gap > 1e-6 {
		t.Discard("not at rest")
	}
	switch how {
	case 0:
		bs[waker].Activate()
	case 1:
		bs[waker].SetVelocity(0, 0)
	case 2:
		B.SetGravity(B.Gravity())
	case 3:
		bs[waker].SetForce(cp.Vector{})
	}
	for _, b := range bs { // a body that had just left the others slept by itself
		b.Activate()
	}
	for k := 1; k <= 10; k++ {
		A.Step(dt)
		B.Step(dt)
		for i := range as {
			a, b := snap(as[i]), snap(bs[i])
			d := math.Max(a.v.Dist(b.v), math.Abs(a.w-b.w))
			t.Check(d <= 1e-2*gr*dt+40*r, "resumes-differently", "step %d after waking: body %d has %v, its twin that never slept %v (residual %v, gravity adds %v in a step)", k, i, b, a, r, gr*dt)
			t.Check(a.c.Dist(b.c) <= 1e-4+gap*2, "resumes-elsewhere", "step %d after waking: body %d is at %v, its twin that never slept at %v", k, i, b.c, a.c)
		}
	}
	t.NonTrivial()
	t.LabelIf(hang, "resume:chain")
	t.LabelIf(!hang && n > 1, "resume:stack")
}

func c09Gravity(t *pbt.T) {
	sp := cp.NewSpace()
	sp.SleepTimeThreshold = 0.01
	sp.IdleSpeedThreshold = 1
	var bs []*cp.Body
	for i := 0; i < 4; i++ {
		b := sp.AddBody(cp.NewBody(1, 1))
		b.SetPosition(cp.Vector{X: float64(i) * 100})
		sp.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
		bs = append(bs, b)
	}
	for i := 0; i < 3; i++ {
		sp.Step(1.0 / 60)
	}
	for _, b := range bs {
		if !b.IsSleeping() {
			t.Discard("awake")
		}
	}
	sp.SetGravity(cp.Vector{Y: -10})
	for i, b := range bs {
		t.Check(!b.IsSleeping(), "not-woken", "body %d of 4 sleeps on after SetGravity", i)
	}
}

func c09Surface(t *pbt.T) {
	sp := cp.NewSpace()
	sp.SleepTimeThreshold = 0.01
	sp.IdleSpeedThreshold = 1
	b := sp.AddBody(cp.NewBody(1, 1))
	s := sp.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
	for i := 0; i < 3; i++ {
		sp.Step(1.0 / 60)
	}
	if !b.IsSleeping() {
		t.Discard("awake")
	}
	s.SetSurfaceV(cp.Vector{X: 1})
	t.Check(!b.IsSleeping(), "not-woken", "the body sleeps on after SetSurfaceV of its shape")
}
