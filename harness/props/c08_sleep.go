package props

import (
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C08", Quick: 90000, Thorough: 1500000,
		Rule: "histories of edits and steps of spaces that let bodies sleep; after every step the idle time of every body and the set of sleeping bodies are worked out anew from speeds, brute-force contacts, joints and thresholds; non-trivial: in some step a set of two or more linked bodies fell asleep, or a set was kept awake only by one member or by a kinematic body",
		Subs: []Sub{{"history", 3, c08History}, {"calm", 4, c08Calm}, {"settle", 2, c08Settle}, {"graph", 3, c08Graph}},
		Pins: []Pin{{"threshold-off", c08Off}, {"body-in-no-space", c08NoSpace}},
	})
}

type c08 struct {
	w      *World
	idle   []float64 // before the step
	asleep []bool
	vel    []St
	sensed bool
}

func newC08(w *World) *c08 {
	m := &c08{w: w}
	w.beforeStep = m.before
	w.afterStep = m.after
	return m
}

func (m *c08) before() {
	m.idle, m.asleep, m.vel = m.idle[:0], m.asleep[:0], m.vel[:0]
	for _, wb := range m.w.bodies {
		m.idle = append(m.idle, wb.b.IdleTime())
		m.asleep = append(m.asleep, wb.b.IsSleeping())
		m.vel = append(m.vel, snap(wb.b))
	}
}

// find is union-find over body ids.
func find(r []int, i int) int {
	for r[i] != i {
		r[i] = r[r[i]]
		i = r[i]
	}
	return i
}

// holds: what touches the body or is joined to it stays awake. A body in no space does not idle.
func holds(b *WBody) bool {
	return b.typ == cp.BODY_KINEMATIC || b.typ == cp.BODY_DYNAMIC && !b.in
}

type c08Edge struct {
	a, b *WShape
	sure bool
}

// contacts lists the pairs that the step just made count as solid contacts.
func (m *c08) contacts() []c08Edge {
	w := m.w
	var out []c08Edge
	for i, a := range w.shapes {
		for _, b := range w.shapes[:i] {
			if a.sensor || b.sensor || w.ruledOut(a, b) {
				continue
			}
			if (m.asleep[a.wb.id] || a.wb.typ == cp.BODY_STATIC) && (m.asleep[b.wb.id] || b.wb.typ == cp.BODY_STATIC) {
				continue // neither moved
			}
			if a.wb.typ != cp.BODY_DYNAMIC && b.wb.typ != cp.BODY_DYNAMIC {
				continue
			}
			r := w.touching(a, b)
			if r == 0 {
				continue
			}
			if r > 0 && w.cfg.Handlers > 0 {
				ok := false
				for _, e := range w.ev {
					if e.kind == 'p' && e.ret && (e.a == a && e.b == b || e.a == b && e.b == a) {
						ok = true
					}
				}
				if !ok {
					w.t.Label("refused-contact")
					continue
				}
			}
			out = append(out, c08Edge{a, b, r > 0})
		}
	}
	return out
}

func (m *c08) after() {
	w, t := m.w, m.w.t
	sp := w.sp
	on := sp.SleepTimeThreshold != cp.INFINITY
	n := len(w.bodies)
	if !on {
		for i, wb := range w.bodies {
			if wb.typ == cp.BODY_DYNAMIC {
				t.Check(wb.b.IdleTime() == m.idle[i], "idle-while-off", "sleeping is off: idle time of %v went from %v to %v", wb, m.idle[i], wb.b.IdleTime())
			}
			t.Check(!wb.b.IsSleeping(), "sleep-while-off", "sleeping is off: %v sleeps", wb)
		}
		return
	}
	dvsq := sp.IdleSpeedThreshold * sp.IdleSpeedThreshold
	if sp.IdleSpeedThreshold == 0 {
		gr := g(sp.Gravity())
		dvsq = gr.Dot(gr) * w.dt * w.dt
	}
	// idle time per body; fuzzy: the speed or a contact is too close to call
	idle := make([]float64, n)
	fuzzy := make([]bool, n)
	maybe0 := make([]bool, n) // a body touching one that was held awake may be reset too
	for i, wb := range w.bodies {
		idle[i] = m.idle[i]
		if wb.typ != cp.BODY_DYNAMIC || !wb.in || m.asleep[i] {
			continue
		}
		s := m.vel[i]
		ke := 0.0
		if l := s.v.Dot(s.v); l != 0 {
			ke += l * wb.b.Mass()
		}
		if s.w != 0 {
			ke += s.w * s.w * wb.b.Moment()
		}
		lim := 0.0
		if dvsq != 0 {
			lim = wb.b.Mass() * dvsq
		}
		if ke != lim && math.Abs(ke-lim) < 1e-9*(ke+lim) {
			fuzzy[i] = true
		}
		if ke > lim {
			idle[i] = 0
		} else {
			idle[i] += w.dt
		}
	}
	root := make([]int, n)
	for i := range root {
		root[i] = i
	}
	// components that slept, as linked before (by what slept together)
	edges := m.contacts()
	link := func(a, b *WBody) {
		if a.typ == cp.BODY_DYNAMIC && b.typ == cp.BODY_DYNAMIC && a.in && b.in {
			root[find(root, a.id)] = find(root, b.id)
		}
	}
	reset := make([]bool, n) // held awake or woken
	held := func(x *WBody, sure bool) {
		if x.typ != cp.BODY_DYNAMIC {
			return
		}
		if sure {
			reset[x.id] = true
		} else {
			fuzzy[x.id] = true
		}
	}
	for _, e := range edges {
		a, b := e.a.wb, e.b.wb
		link(a, b)
		if !e.sure {
			fuzzy[a.id], fuzzy[b.id] = true, true
		}
		for _, x := range [][2]*WBody{{a, b}, {b, a}} {
			if holds(x[1]) || m.asleep[x[0].id] {
				held(x[0], e.sure)
				// whoever touches x[0] may be reset with it
				for _, f := range edges {
					if f.a.wb == x[0] {
						maybe0[f.b.wb.id] = true
					} else if f.b.wb == x[0] {
						maybe0[f.a.wb.id] = true
					}
				}
			}
		}
	}
	for _, j := range w.joints {
		if !j.in {
			continue
		}
		link(j.a, j.b)
		for _, x := range [][2]*WBody{{j.a, j.b}, {j.b, j.a}} {
			if holds(x[1]) && !m.asleep[x[0].id] {
				held(x[0], true)
				for _, f := range edges {
					if f.a.wb == x[0] {
						maybe0[f.b.wb.id] = true
					} else if f.b.wb == x[0] {
						maybe0[f.a.wb.id] = true
					}
				}
			}
		}
	}
	// members of a sleeping set stay linked by the contacts they fell asleep with: see C09.
	woken := make([]bool, n)
	for i, wb := range w.bodies {
		woken[i] = m.asleep[i] && !wb.b.IsSleeping()
	}
	type comp struct {
		members         []*WBody
		awake           bool // some member must stay awake
		fuzzy, sleepers bool
	}
	comps := map[int]*comp{}
	var order []*comp
	for i, wb := range w.bodies {
		if wb.typ != cp.BODY_DYNAMIC || !wb.in {
			continue
		}
		r := find(root, i)
		c := comps[r]
		if c == nil {
			c = &comp{}
			comps[r] = c
			order = append(order, c)
		}
		c.members = append(c.members, wb)
		c.fuzzy = c.fuzzy || fuzzy[i]
		c.sleepers = c.sleepers || m.asleep[i]
	}
	for _, c := range order {
		if c.fuzzy {
			t.Label("too-close-to-call")
			continue
		}
		if c.sleepers {
			// either all slept on or something woke them
			for _, wb := range c.members {
				i := wb.id
				if reset[i] && m.asleep[i] {
					t.Label("woken-by-touch")
					t.Check(!wb.b.IsSleeping(), "touched-sleeper", "%v slept and was touched by a moving body, and still sleeps", wb)
					t.Check(wb.b.IdleTime() == 0, "woken-idle", "%v was woken and has idle time %v", wb, wb.b.IdleTime())
				}
				if !m.asleep[i] {
					t.Check(!wb.b.IsSleeping(), "sleep-joining", "%v fell asleep in the step in which it touched sleeping bodies", wb)
				}
			}
			continue
		}
		awake, slow, fast, below, heldN := false, 0, 0, 0, 0
		for _, wb := range c.members {
			i := wb.id
			want := idle[i]
			if reset[i] {
				want = 0
				heldN++
			}
			got := wb.b.IdleTime()
			ok := got == want || maybe0[i] && got == 0
			t.Check(ok, "idle-time", "idle time of %v is %v, want %v (before the step %v, v=%v w=%v, m=%v i=%v, idle speed %v, held awake %v)",
				wb, got, want, m.idle[i], m.vel[i].v, m.vel[i].w, wb.b.Mass(), wb.b.Moment(), math.Sqrt(dvsq), reset[i])
			if got == 0 {
				fast++
			} else {
				slow++
			}
			if got < sp.SleepTimeThreshold {
				awake = true
				below++
			}
		}
		for _, wb := range c.members {
			if awake {
				t.Check(!wb.b.IsSleeping(), "sleeps-early", "%v fell asleep: idle for %v s, threshold %v, in a set of %d with one that has not been idle for long enough", wb, wb.b.IdleTime(), sp.SleepTimeThreshold, len(c.members))
			} else {
				t.Check(wb.b.IsSleeping(), "stays-awake", "%v is awake: it and the %d linked bodies have been idle for the threshold of %v s (it for %v s)", wb, len(c.members)-1, sp.SleepTimeThreshold, wb.b.IdleTime())
			}
		}
		if !awake {
			t.Label("fell-asleep")
			t.NonTrivialIf(len(c.members) > 1)
			t.LabelIf(len(c.members) > 2, "fell-asleep:3+")
		} else if below < len(c.members) {
			t.NonTrivial()
			t.Label("kept-awake-by-some-member")
			t.LabelIf(heldN > 0, "kept-awake-by-kinematic")
		}
	}
	// a sleeping body whose set nothing touched sleeps on
	quiet := true
	for _, e := range edges {
		if m.asleep[e.a.wb.id] || m.asleep[e.b.wb.id] {
			quiet = false
		}
	}
	if quiet {
		for i, wb := range w.bodies {
			if m.asleep[i] {
				t.Check(wb.b.IsSleeping(), "woken-by-nothing", "%v was asleep, nothing touched a sleeping body, and it is awake after the step", wb)
			}
		}
	}
}

func c08Speeds(w *World) {
	t := w.t
	switch t.Weighted(2, 3, 1) {
	case 0:
		w.sp.IdleSpeedThreshold = 0
	case 1:
		w.sp.IdleSpeedThreshold = t.Log(0.01, 30)
	}
	t.Logf("idle speed %v", w.sp.IdleSpeedThreshold)
}

func (m *c08) decide() {
	w := m.w
	if w.cfg.Handlers == 0 {
		return
	}
	nb, np := w.t.P(1, 3), w.t.P(1, 3)
	w.decide = func(kind byte, a, b *WShape, arb arbT) bool {
		if kind == 'b' {
			return !nb || !w.chance('b', a, b, 1, 3)
		}
		return !np || !w.chance('p', a, b, 1, 3)
	}
}

func c08History(t *pbt.T) {
	w := newWorld(t, WCfg{Sleep: true, Rogues: true, Heavy: t.P(1, 3), Joints: t.Bool(), Filters: t.P(1, 3), Sensors: true, Retype: t.Bool(), Kinematic: t.Bool(), Mutate: t.P(1, 3), Hash: t.P(1, 3), Handlers: t.Weighted(2, 1, 1), NoGravity: t.Bool(), MaxBodies: 6, Size: t.Log(2, 10)})
	c08Speeds(w)
	m := newC08(w)
	m.decide()
	w.populate()
	w.t.List(10, 60, func(int) {
		if t.P(1, 5) {
			w.Edit()
		} else {
			if t.P(1, 20) {
				w.dt *= t.Log(0.3, 3)
				w.dt = math.Min(math.Max(w.dt, 0.002), 0.1)
			}
			w.Step()
		}
	})
}

// disturb makes a change to a body, which ends the idle time of its set and of the bodies that touch it,
// so that nothing is left hanging in the air, and of nothing else.
func (m *c08) disturb(wb *WBody, change func()) {
	w, t := m.w, m.w.t
	idle, asleep := make([]float64, len(w.bodies)), make([]bool, len(w.bodies))
	for i, x := range w.bodies {
		idle[i], asleep[i] = x.b.IdleTime(), x.b.IsSleeping()
	}
	touching := map[*cp.Body]bool{wb.b: true}
	wb.b.EachArbiter(func(arb *cp.Arbiter) {
		_, other := arb.Bodies()
		touching[other] = true
	})
	change()
	for i, x := range w.bodies {
		if x.typ != cp.BODY_DYNAMIC || !x.in {
			continue
		}
		got := x.b.IdleTime()
		switch {
		case touching[x.b] || asleep[i] && !x.b.IsSleeping():
			t.Check(got == 0, "disturbed-idle", "%v was disturbed: the idle time of %v, which is it, touches it or slept with it, is %v", wb, x, got)
			t.LabelIf(x != wb && idle[i] > 0, "idle-neighbour-disturbed")
		default:
			t.Check(got == idle[i], "undisturbed-idle", "%v was disturbed: the idle time of %v, which does not touch it, went from %v to %v", wb, x, idle[i], got)
		}
	}
}

// calmOne sets the speed of a body near the idle speed.
func (m *c08) calmOne(wb *WBody) {
	m.disturb(wb, func() { m.calm(wb) })
}

func (m *c08) calm(wb *WBody) {
	w, t := m.w, m.w.t
	dv := w.sp.IdleSpeedThreshold
	if dv == 0 {
		dv = g(w.sp.Gravity()).Len() * w.dt
	}
	f := []float64{0, 0.3, 0.999, 1.001, 3}[t.Weighted(4, 3, 2, 2, 1)]
	wb.b.SetVelocityVector(v(P{1, 0}.Rot(t.Angle()).Mul(dv * f)))
	wb.b.SetAngularVelocity(0)
	if t.P(1, 4) {
		wb.b.SetVelocity(0, 0)
		wb.b.SetAngularVelocity(dv * f * math.Sqrt(wb.b.Mass()/wb.b.Moment()))
		if !finite(wb.b.AngularVelocity()) {
			wb.b.SetAngularVelocity(0)
		}
	}
	t.Logf("calm %v to %v of the idle speed: v=%v w=%v", wb, f, wb.b.Velocity(), wb.b.AngularVelocity())
}

// c08Calm: slow bodies without gravity, some linked, with speeds around the threshold.
func c08Calm(t *pbt.T) {
	w := newWorld(t, WCfg{Sleep: true, Rogues: true, Heavy: t.P(1, 3), Joints: t.P(2, 3), Filters: t.P(1, 4), Sensors: t.P(1, 3), Retype: t.P(1, 3), Kinematic: t.Bool(), Hash: t.P(1, 4), Handlers: t.Weighted(3, 1), NoGravity: true, MaxBodies: 6, Size: t.Log(2, 10)})
	w.sp.IdleSpeedThreshold = t.Log(0.01, 10)
	w.sp.SleepTimeThreshold = t.Real(0.5, 8) * w.dt
	if t.P(1, 6) { // exactly a number of steps
		w.sp.SleepTimeThreshold = float64(t.Int(1, 5)) * w.dt
	}
	t.Logf("idle speed %v, sleep after %v", w.sp.IdleSpeedThreshold, w.sp.SleepTimeThreshold)
	m := newC08(w)
	m.decide()
	w.populate()
	for _, wb := range w.bodies {
		if wb.typ == cp.BODY_DYNAMIC {
			m.calmOne(wb)
			if t.P(1, 12) && len(w.joints) == 0 { // a rotary joint needs something that can turn
				w.cfg.Joints = false
				wb.b.SetMoment(cp.INFINITY)
				t.Logf("%v has infinite moment", wb)
				m.calmOne(wb)
			}
		} else if wb.typ == cp.BODY_KINEMATIC && t.P(2, 3) {
			wb.b.SetVelocity(0, 0)
			wb.b.SetAngularVelocity(0)
		}
	}
	w.t.List(8, 50, func(int) {
		switch t.Weighted(8, 2, 1, 1) {
		case 0:
			w.Step()
		case 1:
			if wb := w.pickBody(func(b *WBody) bool { return b.typ == cp.BODY_DYNAMIC && b.in }); wb != nil {
				m.calmOne(wb)
			}
		case 2:
			w.Edit()
		case 3:
			switch t.Weighted(2, 1, 1) {
			case 0:
				w.sp.SleepTimeThreshold = t.Real(0.5, 8) * w.dt
			case 1:
				w.sp.IdleSpeedThreshold = t.Log(0.01, 10)
			case 2:
				w.dt = t.Log(0.004, 0.06)
			}
			t.Logf("now dt %v, idle speed %v, sleep after %v", w.dt, w.sp.IdleSpeedThreshold, w.sp.SleepTimeThreshold)
		}
	})
}

// c08Settle: bodies fall on the ground and come to rest.
func c08Settle(t *pbt.T) {
	w := newWorld(t, WCfg{Sleep: true, Rogues: true, Heavy: t.P(1, 3), Joints: t.P(1, 3), Kinematic: t.P(1, 4), NoGravity: true, MaxBodies: 4, Size: t.Log(3, 6), Hash: t.P(1, 5)})
	w.sp.SetGravity(cp.Vector{Y: -t.F(5, 60)})
	w.sp.SetDamping(t.F(0.1, 0.9))
	w.sp.SleepTimeThreshold = t.Real(1, 30) * w.dt
	w.sp.IdleSpeedThreshold = []float64{0, t.F(0.5, 5)}[t.Intn(2)]
	newC08(w)
	gd := Def{Kind: "segment", Pts: []P{{-40, -8}, {40, -8}}, R: 1}
	ws := &WShape{id: len(w.shapes), wb: w.bodies[0], d: gd, filter: cp.SHAPE_FILTER_ALL}
	ws.s = gd.Make(w.bodies[0].b)
	ws.s.UserData = ws
	ws.s.SetFriction(1)
	w.shapes = append(w.shapes, ws)
	w.addShape(ws)
	t.Logf("ground %v", gd)
	w.populate()
	for _, s := range w.shapes {
		s.s.SetElasticity(0)
		s.s.SetFriction(1)
	}
	w.t.List(40, 150, func(int) {
		if t.P(1, 40) {
			w.Edit()
		} else {
			w.Step()
		}
	})
}

// c08Graph: bodies in chains, trees and rings of joints and touching circles, all but few of them
// still, so that the answer depends on the whole graph.
func c08Graph(t *pbt.T) {
	w := newWorld(t, WCfg{Sleep: true, NoGravity: true, Size: 10, Kinematic: true})
	w.sp.SetGravity(cp.Vector{})
	w.sp.SetDamping(1)
	dv := t.Log(0.1, 5)
	w.sp.IdleSpeedThreshold = dv
	w.sp.SleepTimeThreshold = t.Real(0.5, 4) * w.dt
	m := newC08(w)
	n := t.Int(2, 30)
	nodes := make([]*WBody, 0, n)
	for i := 0; i < n; i++ {
		typ := []int{cp.BODY_DYNAMIC, cp.BODY_STATIC, cp.BODY_KINEMATIC}[t.Weighted(20, 1, 1)]
		wb := &WBody{id: len(w.bodies), typ: typ, m: t.Log(0.2, 20), i: t.Log(0.2, 50)}
		if t.P(1, 8) {
			k := t.Log(1e-6, 1e9)
			wb.m, wb.i = wb.m*k, wb.i*k
		}
		switch typ {
		case cp.BODY_DYNAMIC:
			wb.b = cp.NewBody(wb.m, wb.i)
		case cp.BODY_KINEMATIC:
			wb.b = cp.NewKinematicBody()
		default:
			wb.b = cp.NewStaticBody()
		}
		wb.b.SetPosition(v(P{float64(i) * 10, 0}))
		w.bodies = append(w.bodies, wb)
		w.sp.AddBody(wb.b)
		wb.in = true
		nodes = append(nodes, wb)
	}
	// links: to an earlier node, by spring-less joints that hold as they are, or by touching circles
	for i := 1; i < n; i++ {
		if t.P(1, 8) {
			continue
		}
		k := i - 1
		if t.P(1, 3) {
			k = t.Intn(i)
		}
		m.link(nodes[i], nodes[k])
	}
	for i := 0; i < n/6; i++ {
		m.link(nodes[t.Intn(n)], nodes[t.Intn(n)])
	}
	speed := func() {
		for _, wb := range nodes {
			if wb.typ == cp.BODY_DYNAMIC && !wb.b.IsSleeping() {
				wb.b.SetVelocity(0, 0)
				wb.b.SetAngularVelocity(0)
			}
		}
		if t.P(2, 3) {
			wb := nodes[t.Intn(n)]
			if wb.typ == cp.BODY_DYNAMIC && wb.b.IsSleeping() == t.P(1, 5) {
				wb.b.SetVelocity(dv*t.F(0, 1.5), 0)
				t.Logf("%v moves at %v", wb, wb.b.Velocity())
			}
		}
	}
	t.List(4, 20, func(int) {
		if t.P(3, 4) {
			speed()
		}
		if t.P(1, 8) {
			if len(w.joints) > 0 {
				if j := w.joints[t.Intn(len(w.joints))]; j.in {
					t.Logf("remove joint %v-%v", j.a, j.b)
					w.removeJoint(j)
				}
			}
		}
		w.Step()
	})
}

func (m *c08) link(a, b *WBody) {
	w, t := m.w, m.w.t
	if a == b || a.typ != cp.BODY_DYNAMIC && b.typ != cp.BODY_DYNAMIC {
		return
	}
	if t.P(2, 3) {
		j := &WJoint{a: a, b: b, collide: true}
		// a joint that has nothing to do
		switch t.Intn(3) {
		case 0:
			j.c = cp.NewSlideJoint(a.b, b.b, cp.Vector{}, cp.Vector{}, 0, 1e6)
		case 1:
			j.c = cp.NewRotaryLimitJoint(a.b, b.b, -1e6, 1e6)
		case 2:
			j.c = cp.NewDampedSpring(a.b, b.b, cp.Vector{}, cp.Vector{}, 1, 0, 0)
		}
		if t.P(1, 4) {
			j.c.SetMaxForce([]float64{0, 10}[t.Intn(2)])
		}
		if t.P(1, 4) {
			j.c.SetMaxBias(0)
		}
		j.c.UserData = j
		w.joints = append(w.joints, j)
		w.sp.AddConstraint(j.c)
		j.in = true
		t.Logf("joint %v-%v force %v", a, b, j.c.MaxForce())
		return
	}
	// a shape on each, overlapping by less than the collision slop
	p := g(b.b.Position()).Add(P{t.Real(-4, 4), t.Real(3, 300)})
	q := p.Add(P{0, 0.98})
	for _, x := range []struct {
		wb *WBody
		p  P
	}{{a, p}, {b, q}} {
		ws := &WShape{id: len(w.shapes), wb: x.wb, filter: cp.SHAPE_FILTER_ALL, d: Def{Kind: "circle", Pts: []P{x.p.Sub(g(x.wb.b.Position()))}, R: 0.5}}
		ws.s = ws.d.Make(x.wb.b)
		ws.s.UserData = ws
		w.shapes = append(w.shapes, ws)
		w.addShape(ws)
		t.Logf("%v on %v: %v", ws, x.wb, ws.d)
	}
}

// c08Off: without a threshold nothing sleeps.
func c08Off(t *pbt.T) {
	w := newWorld(t, WCfg{NoGravity: true, MaxBodies: 3})
	newC08(w)
	w.newShape(w.newBody(cp.BODY_DYNAMIC))
	w.bodies[1].b.SetVelocity(0, 0)
	w.bodies[1].b.SetAngularVelocity(0)
	for i := 0; i < 50; i++ {
		w.Step()
	}
}

// c08NoSpace: a dynamic body whose shape is in the space but which itself is not does not idle, and holds awake what it touches.
func c08NoSpace(t *pbt.T) {
	sp := cp.NewSpace()
	sp.SleepTimeThreshold = 0.05
	sp.IdleSpeedThreshold = 1
	in, out := cp.NewBody(1, 1), cp.NewBody(1, 1)
	in.SetPosition(cp.Vector{X: 1.95})
	sp.AddBody(in)
	for _, b := range []*cp.Body{in, out} {
		sp.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
	}
	for k := 0; k < 60; k++ {
		sp.Step(1.0 / 60)
		t.Check(!out.IsSleeping(), "no-space-sleeps", "step %d: a body in no space sleeps", k)
		t.Check(!in.IsSleeping(), "no-space-lets-sleep", "step %d: a body sleeps that touches one in no space", k)
	}
	out.SetPosition(cp.Vector{X: 100})
	for k := 0; k < 10; k++ {
		sp.Step(1.0 / 60)
		for _, b := range []*cp.Body{in, out} {
			b.EachArbiter(func(*cp.Arbiter) {
				t.Failf("no-space-stale", "a contact is listed of two bodies 98 apart")
			})
		}
	}
	t.Check(in.IsSleeping(), "no-space-left", "a body at rest that touches nothing is awake after 10 steps")
}
