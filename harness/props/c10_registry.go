package props

import (
	"fmt"
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C10", Quick: 60000, Thorough: 900000,
		Rule: "histories of adding, removing, re-adding, moving between spaces, changing type, switching index, stepping, falling asleep and waking; after every operation all iterations, membership tests and bodies' own lists are compared with an independent record, with callbacks that wake bodies; non-trivial: objects were removed or re-typed, and some iteration met sleeping bodies",
		Subs: []Sub{{"history", 2, c10History}, {"registry", 4, c10Registry}},
		Pins: []Pin{{"waking-while-iterating", c10Wake}, {"rogue-retyped", c10Rogue}, {"loose-shape", c10Loose}, {"removing-while-visiting", c10Removing}},
	})
}

// c10Check compares what the space lists with the record. wake: callbacks wake bodies.
func (w *World) c10Check(wake bool) {
	t, sp := w.t, w.sp
	wakes := func(b *cp.Body) {
		if wake && b.IsSleeping() && t.P(1, 3) {
			t.Label("woken-in-iteration")
			t.Logf("%v woken in the iteration", b)
			b.Activate()
			if t.P(1, 3) { // an iteration inside
				t.Label("nested-iteration")
				n := map[*cp.Body]int{}
				sp.EachBody(func(b *cp.Body) { n[b]++ })
				for _, wb := range w.bodies[1:] {
					t.Check(n[wb.b] == 1 || !wb.in && n[wb.b] == 0, "body-listed", "%v (in the space: %v, asleep: %v) visited %d times by EachBody, called in a callback that woke bodies", wb, wb.in, wb.b.IsSleeping(), n[wb.b])
				}
			}
		}
	}
	sleepers := 0
	bodies := map[*cp.Body]int{}
	sp.EachBody(func(b *cp.Body) {
		bodies[b]++
		if b.IsSleeping() {
			sleepers++
		}
		wakes(b)
	})
	t.LabelIf(sleepers > 0, "iterated-sleepers")
	known := 0
	for _, wb := range w.bodies[1:] {
		want := 0
		if wb.in {
			want = 1
			known++
		}
		t.Check(bodies[wb.b] == want, "body-listed", "%v (in the space: %v, asleep: %v) visited %d times by EachBody", wb, wb.in, wb.b.IsSleeping(), bodies[wb.b])
		t.Check(sp.ContainsBody(wb.b) == wb.in, "contains-body", "ContainsBody(%v) is %v", wb, !wb.in)
	}
	t.Check(sp.ContainsBody(sp.StaticBody), "contains-body", "the space does not contain its static body")
	delete(bodies, sp.StaticBody)
	t.Check(len(bodies) == known, "body-listed", "EachBody visited %d different bodies, %d were added", len(bodies), known)

	shapes := map[*cp.Shape]int{}
	sp.EachShape(func(s *cp.Shape) {
		shapes[s]++
		wakes(s.Body())
	})
	known = 0
	for _, ws := range w.shapes {
		want := 0
		if ws.in {
			want = 1
			known++
		}
		t.Check(shapes[ws.s] == want, "shape-listed", "%v (in the space: %v, on %v, asleep: %v) visited %d times by EachShape", ws, ws.in, ws.wb, ws.wb.b.IsSleeping(), shapes[ws.s])
		t.Check(sp.ContainsShape(ws.s) == ws.in, "contains-shape", "ContainsShape(%v) is %v", ws, !ws.in)
		t.Check((ws.s.Space() == sp) == ws.in, "shape-space", "%v: Space() does not agree (in the space: %v)", ws, ws.in)
		t.Check(ws.s.Body() == ws.wb.b, "shape-body", "%v: Body() is not the body it was made for", ws)
	}
	t.Check(len(shapes) == known, "shape-listed", "EachShape visited %d different shapes, %d were added", len(shapes), known)

	joints := map[*cp.Constraint]int{}
	sleeping := map[*cp.Constraint]bool{}
	for _, j := range w.joints {
		sleeping[j.c] = j.a.b.IsSleeping() || j.b.b.IsSleeping()
	}
	sp.EachConstraint(func(c *cp.Constraint) {
		joints[c]++
		wakes(c.UserData.(*WJoint).a.b)
	})
	for _, j := range w.joints {
		n := joints[j.c]
		if j.in && !sleeping[j.c] {
			t.Check(n == 1, "joint-listed", "joint %v-%v visited %d times by EachConstraint", j.a, j.b, n)
		} else if j.in {
			t.Check(n <= 1, "joint-listed", "joint %v-%v of sleeping bodies visited %d times by EachConstraint", j.a, j.b, n)
		} else {
			t.Check(n == 0, "joint-listed", "joint %v-%v was removed and visited by EachConstraint", j.a, j.b)
		}
		t.Check(sp.ContainsConstraint(j.c) == j.in, "contains-joint", "ContainsConstraint(%v-%v) is %v", j.a, j.b, !j.in)
		delete(joints, j.c)
	}
	t.Check(len(joints) == 0, "joint-listed", "EachConstraint visited a joint that was never added")

	// DebugInfo counts the same things.
	var arb, maxArb, pts, maxPts, cons, its, x, maxX int
	var ke, wantKE float64
	info := cp.DebugInfo(sp)
	n, err := fmt.Sscanf(info, "Arbiters: %d (%d) - Contact Points: %d (%d)\nOther Constraints: %d, Iterations: %d\nConstraints x Iterations: %d (%d)\nKE: %e",
		&arb, &maxArb, &pts, &maxPts, &cons, &its, &x, &maxX, &ke)
	t.Check(n == 9, "debug-info", "DebugInfo cannot be read (%v): %q", err, info)
	listed := 0
	sp.EachConstraint(func(*cp.Constraint) { listed++ })
	for _, wb := range w.bodies {
		if b := wb.b; wb.in && b.GetType() == cp.BODY_DYNAMIC && !b.IsSleeping() && b.Mass() < cp.INFINITY && b.Moment() < cp.INFINITY {
			wantKE += b.Mass()*b.Velocity().LengthSq() + b.Moment()*b.AngularVelocity()*b.AngularVelocity()
		}
	}
	t.Check(cons == listed, "debug-joints", "DebugInfo counts %d joints, EachConstraint lists %d", cons, listed)
	t.Check(its == int(sp.Iterations), "debug-iterations", "DebugInfo shows %d iterations, there are %d", its, sp.Iterations)
	t.Check(x == cons+pts*its, "debug-work", "DebugInfo shows %d constraints times iterations, for %d joints, %d points and %d iterations", x, cons, pts, its)
	t.Check(pts >= arb && pts <= 2*arb, "debug-points", "DebugInfo counts %d points in %d contacts", pts, arb)
	t.Check(maxArb >= arb && maxPts >= pts && maxX >= x, "debug-max", "a count of DebugInfo is above its own maximum: %q", info)
	t.Check(math.Abs(ke-wantKE) <= 1e-5*wantKE, "debug-energy", "DebugInfo shows the energy %v, the awake bodies have %v", ke, wantKE)

	for _, wb := range w.bodies {
		own := map[*cp.Shape]int{}
		wb.b.EachShape(func(s *cp.Shape) { own[s]++ })
		n := 0
		for _, ws := range w.shapes {
			if ws.wb == wb && ws.in {
				n++
				t.Check(own[ws.s] == 1, "own-shape", "%v lists its %v %d times", wb, ws, own[ws.s])
			}
		}
		for _, s := range wb.loose {
			n++
			t.Check(own[s] == 1, "own-shape", "%v lists the shape that is attached to it but not in the space %d times", wb, own[s])
			t.Check(s.Space() == nil && !sp.ContainsShape(s), "loose-shape", "a shape that was attached to %v only is in a space", wb)
		}
		t.Check(len(own) == n, "own-shape", "%v lists %d shapes, it has %d", wb, len(own), n)
		mine := map[*cp.Constraint]int{}
		wb.b.EachConstraint(func(c *cp.Constraint) { mine[c]++ })
		n = 0
		for _, j := range w.joints {
			if j.in && (j.a == wb || j.b == wb) {
				n++
				t.Check(mine[j.c] == 1, "own-joint", "%v lists its joint %v-%v %d times", wb, j.a, j.b, mine[j.c])
			}
		}
		t.Check(len(mine) == n, "own-joint", "%v lists %d joints, it has %d", wb, len(mine), n)
		t.Check(wb.b.GetType() == wb.typ, "type", "%v: type %d, was set to %d", wb, wb.b.GetType(), wb.typ)
	}
	if wake { // those woken are back where they belong
		w.c10Check(false)
	}
	if sleepers > 0 && w.changed {
		t.NonTrivial()
	}
}

func c10History(t *pbt.T) {
	w := newWorld(t, WCfg{Units: true, Rogues: true, Sleep: true, Joints: true, Filters: t.P(1, 4), Sensors: t.P(1, 3), Retype: true, Kinematic: true, Mutate: t.P(1, 4), Hash: t.P(1, 3), NoGravity: t.P(3, 4), MaxBodies: 6, Size: t.Log(2, 10)})
	w.sp.IdleSpeedThreshold = t.Log(0.1, 30)
	w.sp.SleepTimeThreshold = t.Real(0.5, 5) * w.dt
	w.changed = true
	w.populate()
	w.c10Check(false)
	t.List(8, 40, func(int) {
		if t.Bool() {
			w.Edit()
		} else {
			w.Step()
		}
		w.c10Check(t.P(1, 4))
	})
}

// c10Registry: two spaces, many objects, structural edits only; most bodies do not move.
func c10Registry(t *pbt.T) {
	var ws [2]*World
	for i := range ws {
		w := newWorld(t, WCfg{Units: true, Rogues: true, NoGravity: true, Kinematic: true, Retype: true, Size: 10, MaxBodies: 1})
		w.sp.IdleSpeedThreshold = 1
		w.sp.SleepTimeThreshold = t.Real(0.5, 2.5) * w.dt
		ws[i] = w
	}
	newBody := func(w *World) {
		typ := []int{cp.BODY_DYNAMIC, cp.BODY_STATIC, cp.BODY_KINEMATIC}[t.Weighted(5, 1, 1)]
		wb := &WBody{id: len(w.bodies), typ: typ, m: 1, i: 1}
		switch typ {
		case cp.BODY_DYNAMIC:
			wb.b = cp.NewBody(1, 1)
		case cp.BODY_KINEMATIC:
			wb.b = cp.NewKinematicBody()
		default:
			wb.b = cp.NewStaticBody()
		}
		wb.b.SetPosition(cp.Vector{X: float64(t.Int(0, 12)) * 2})
		w.bodies = append(w.bodies, wb)
		if !t.P(1, 8) { // or later
			w.sp.AddBody(wb.b)
			wb.in = true
		}
		t.Logf("%v: type %d at %v, in the space: %v", wb, typ, wb.b.Position(), wb.in)
	}
	shape := func(w *World, wb *WBody) {
		s := w.plainShape(wb, Def{Kind: "circle", Pts: []P{{0, 3 * float64(t.Int(0, 2))}}, R: 1.005})
		if t.P(1, 6) && wb.typ == cp.BODY_DYNAMIC {
			s.s.SetMass(1)
			wb.b.SetMass(1)
			wb.b.SetMoment(1)
		}
	}
	joint := func(w *World) {
		a := w.pickBody(func(b *WBody) bool { return b.typ == cp.BODY_DYNAMIC && b.in })
		if a == nil {
			return
		}
		b := w.pickBody(func(b *WBody) bool { return b != a && b.in })
		if b == nil {
			return
		}
		if t.Bool() {
			a, b = b, a
		}
		j := &WJoint{a: a, b: b, collide: t.Bool()}
		j.c = cp.NewSlideJoint(a.b, b.b, cp.Vector{}, cp.Vector{}, 0, 1e6)
		j.c.UserData = j
		j.c.SetCollideBodies(j.collide)
		w.joints = append(w.joints, j)
		w.sp.AddConstraint(j.c)
		j.in = true
		t.Logf("joint %v-%v", a, b)
	}
	for _, w := range ws {
		for n := t.Int(2, 8); n > 0; n-- {
			newBody(w)
			for k := t.Int(0, 2); k > 0; k-- {
				shape(w, w.bodies[len(w.bodies)-1])
			}
		}
		for n := t.Int(0, 6); n > 0; n-- {
			joint(w)
		}
	}
	t.List(5, 45, func(int) {
		k := t.Weighted(3, 1)
		w, o := ws[k], ws[1-k]
		switch t.Weighted(8, 2, 2, 3, 3, 3, 3, 3, 2, 2, 2, 1, 1, 2) {
		case 13:
			if wb := w.pickBody(func(b *WBody) bool { return b.in && len(b.shapes) > 0 }); wb != nil {
				w.c10Strip(wb)
				w.changed = true
			}
		case 12:
			if wb := w.pickBody(func(b *WBody) bool { return b.id > 0 && len(b.loose) < 2 }); wb != nil {
				s := cp.NewCircle(wb.b, 1, cp.Vector{})
				wb.b.AddShape(s)
				wb.loose = append(wb.loose, s)
				t.Logf("%v gets a shape that is not added to the space", wb)
				t.Label("loose shape")
			}
		case 0:
			for n := t.Int(1, 4); n > 0; n-- {
				w.Step()
			}
		case 1:
			if len(w.bodies) < 14 {
				newBody(w)
			}
		case 2:
			wb := w.pickBody(func(b *WBody) bool { return b.in && len(b.shapes) < 4 })
			if wb != nil {
				shape(w, wb)
			}
		case 3:
			joint(w)
			if t.P(1, 3) {
				joint(w)
				joint(w)
			}
		case 4:
			var in []*WJoint
			for _, j := range w.joints {
				if j.in {
					in = append(in, j)
				}
			}
			if len(in) > 0 {
				j := in[t.Intn(len(in))]
				t.Logf("remove joint %v-%v", j.a, j.b)
				w.removeJoint(j)
				w.changed = true
			}
		case 5:
			if s := w.pickShape(func(s *WShape) bool { return s.in }); s != nil {
				t.Logf("remove %v", s)
				w.removeShape(s)
				if s.wb.typ == cp.BODY_DYNAMIC {
					s.wb.b.SetMass(1)
					s.wb.b.SetMoment(1)
				}
				w.changed = true
			}
		case 6: // put something back
			if s := w.pickShape(func(s *WShape) bool { return !s.in && s.wb.in }); s != nil && t.Bool() {
				t.Logf("%v back", s)
				w.addShape(s)
			}
			for _, j := range w.joints {
				if !j.in && j.a.in && j.b.in && (j.a.typ == cp.BODY_DYNAMIC || j.b.typ == cp.BODY_DYNAMIC) && t.Bool() {
					t.Logf("joint %v-%v back", j.a, j.b)
					w.sp.AddConstraint(j.c)
					j.in = true
					break
				}
			}
			if wb := w.pickBody(func(b *WBody) bool { return !b.in && b.id > 0 }); wb != nil {
				t.Logf("%v back", wb)
				w.sp.AddBody(wb.b)
				wb.in = true
			}
		case 7:
			if wb := w.pickBody(func(b *WBody) bool { return b.in && b.id > 0 }); wb != nil {
				w.setType(wb, t.Intn(3))
				w.changed = true
			}
		case 8:
			if wb := w.pickBody(func(b *WBody) bool { return b.in && b.id > 0 }); wb != nil {
				t.Logf("remove %v", wb)
				w.removeBody(wb)
				w.changed = true
				if wb.typ == cp.BODY_DYNAMIC { // its massive shapes took their mass along
					wb.b.SetMass(1)
					wb.b.SetMoment(1)
				}
				if t.P(1, 3) { // to the other space
					t.Label("moved-between-spaces")
					t.Logf("%v goes to the other space", wb)
					w.forget(wb)
					wb.id = len(o.bodies)
					o.bodies = append(o.bodies, wb)
					o.sp.AddBody(wb.b)
					wb.in = true
					shape(o, wb)
					o.changed = true
				}
			}
		case 9:
			if wb := w.pickBody(func(b *WBody) bool { return b.typ != cp.BODY_STATIC && b.in }); wb != nil {
				wb.b.SetVelocity(0, 0)
				if t.P(1, 3) {
					wb.b.SetVelocity(t.F(-5, 5), 0)
				}
				t.Logf("%v gets velocity %v", wb, wb.b.Velocity())
			}
		case 10:
			w.useHash()
		case 11:
			w.sp.SetGravity(cp.Vector{})
			t.Logf("gravity set, all wake")
		}
		w.c10Check(t.P(1, 4))
		if t.P(1, 5) {
			o.c10Check(false)
		}
	})
	ws[0].c10Check(false)
	ws[1].c10Check(false)
}

// c10Strip goes through the shapes and the joints of a body, and removes some of them when it is their turn.
func (w *World) c10Strip(wb *WBody) {
	t := w.t
	seen := map[*cp.Shape]int{}
	want := len(wb.loose)
	for _, s := range w.shapes {
		if s.wb == wb && s.in {
			want++
		}
	}
	wb.b.EachShape(func(s *cp.Shape) {
		seen[s]++
		if ws, ok := s.UserData.(*WShape); ok && seen[s] == 1 && t.P(2, 3) {
			t.Logf("%v removed while the shapes of %v are visited", ws, wb)
			w.removeShape(ws)
			t.Label("removed while visited")
		}
	})
	for s, n := range seen {
		t.Check(n == 1, "own-shape-removing", "%v: an iteration that removes the shapes it is given visits %v %d times", wb, s.UserData, n)
	}
	t.Check(len(seen) == want, "own-shape-removing", "%v has %d shapes; an iteration that removes the shapes it is given visits %d", wb, want, len(seen))
	if wb.typ == cp.BODY_DYNAMIC {
		wb.b.SetMass(1)
		wb.b.SetMoment(1)
	}
	joints := map[*cp.Constraint]int{}
	want = 0
	for _, j := range w.joints {
		if j.in && (j.a == wb || j.b == wb) {
			want++
		}
	}
	wb.b.EachConstraint(func(c *cp.Constraint) {
		joints[c]++
		if j, ok := c.UserData.(*WJoint); ok && joints[c] == 1 && t.P(2, 3) {
			t.Logf("joint %v-%v removed while the joints of %v are visited", j.a, j.b, wb)
			w.removeJoint(j)
			t.Label("removed while visited")
		}
	})
	for c, n := range joints {
		t.Check(n == 1, "own-joint-removing", "%v: an iteration that removes the joints it is given visits %v %d times", wb, c.UserData, n)
	}
	t.Check(len(joints) == want, "own-joint-removing", "%v has %d joints; an iteration that removes the joints it is given visits %d", wb, want, len(joints))
}

// forget drops a removed body with its shapes and joints from the record.
func (w *World) forget(wb *WBody) {
	var ss []*WShape
	for _, s := range w.shapes {
		if s.wb != wb {
			s.id = len(ss)
			ss = append(ss, s)
		}
	}
	w.shapes = ss
	var js []*WJoint
	for _, j := range w.joints {
		if j.a != wb && j.b != wb {
			js = append(js, j)
		}
	}
	w.joints = js
	var bs []*WBody
	for _, b := range w.bodies {
		if b != wb {
			b.id = len(bs)
			bs = append(bs, b)
		}
	}
	w.bodies = bs
}

func c10Wake(t *pbt.T) {
	for each := 0; each < 2; each++ {
		sp := cp.NewSpace()
		sp.SleepTimeThreshold = 0.01
		sp.IdleSpeedThreshold = 1
		var bs []*cp.Body
		for i := 0; i < 6; i++ {
			b := sp.AddBody(cp.NewBody(1, 1))
			b.SetPosition(cp.Vector{X: float64(i) * 100})
			sp.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
			bs = append(bs, b)
		}
		for i := 0; i < 3; i++ { // pairs
			sp.AddConstraint(cp.NewSlideJoint(bs[i], bs[i+3], cp.Vector{}, cp.Vector{}, 0, 1e6))
		}
		for i := 0; i < 3; i++ {
			sp.Step(1.0 / 60)
		}
		n := map[*cp.Body]int{}
		sp.EachBody(func(b *cp.Body) {
			n[b]++
			b.Activate()
		})
		for i, b := range bs {
			t.Check(n[b] == 1, "body-listed", "body %d visited %d times by an iteration whose callback wakes every body", i, n[b])
		}
	}
}

// c10Removing: a loop that removes a body's shapes reaches all of them.
func c10Removing(t *pbt.T) {
	sp := cp.NewSpace()
	b := sp.AddBody(cp.NewBody(1, 1))
	for i := 0; i < 5; i++ {
		sp.AddShape(cp.NewCircle(b, 1, cp.Vector{X: float64(i)}))
	}
	n := 0
	b.EachShape(func(s *cp.Shape) {
		n++
		sp.RemoveShape(s)
	})
	t.Check(n == 5, "own-shape-removing", "a body has 5 shapes; an iteration that removes the shapes it is given visits %d", n)
}

// c10Rogue: the shapes of a body that is kept out of the space follow its type.
func c10Rogue(t *pbt.T) {
	for _, types := range [][2]int{{cp.BODY_STATIC, cp.BODY_KINEMATIC}, {cp.BODY_KINEMATIC, cp.BODY_STATIC}} {
		sp := cp.NewSpace()
		b := cp.NewStaticBody()
		b.SetType(types[0])
		s := sp.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
		sp.Step(0.01)
		b.SetType(types[1])
		sp.Step(0.01)
		count := func() (n int) {
			sp.EachShape(func(*cp.Shape) { n++ })
			return
		}
		t.Check(count() == 1, "shape-listed", "%d shapes, there is one", count())
		sp.RemoveShape(s)
		t.Check(count() == 0, "shape-listed", "%d shapes, the only one was removed", count())
	}
}

// c10Loose: a shape attached to a body but not added to the space stays out of it when the body sleeps and wakes.
func c10Loose(t *pbt.T) {
	for _, hash := range []bool{false, true} {
		sp := cp.NewSpace()
		sp.SleepTimeThreshold = 0.02
		if hash {
			sp.UseSpatialHash(2, 100)
		}
		b := sp.AddBody(cp.NewBody(1, 1))
		b.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
		for i := 0; i < 6; i++ {
			sp.Step(0.01)
		}
		t.Check(b.IsSleeping(), "asleep", "the body does not sleep")
		n := 0
		sp.EachShape(func(*cp.Shape) { n++ })
		t.Check(n == 0, "shape-listed", "a shape that was never added is listed")
		b.Activate()
		b.SetType(cp.BODY_KINEMATIC)
		sp.Step(0.01)
	}
}
