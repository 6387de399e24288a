package props

import (
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	laws := func(kinds []string) (subs []Sub) {
		for _, k := range kinds {
			k := k
			subs = append(subs, Sub{k, 1, func(t *pbt.T) { jointLaw(t, k) }})
		}
		return
	}
	register(&Prop{ID: "C16", Quick: 200000, Thorough: 2000000,
		Rule: "two bodies (dynamic, kinematic or static, with offset centres of gravity and sometimes infinite moments), one positional joint, 1..8 steps of random dt with disturbances between them; non-trivial: the joint's error was not zero and the exact velocity law was checked",
		Subs: append(laws(positional), Sub{"converge", 1, func(t *pbt.T) { jointConverges(t, positional) }},
			Sub{"pin-coincident", 1, pinCoincident}),
		Pins: []Pin{{"dt-change", func(t *pbt.T) { jointDtChange(t, "pin") }}}})
	register(&Prop{ID: "C17", Quick: 220000, Thorough: 2000000,
		Rule: "two bodies, one rotary joint, 1..8 steps of random dt with disturbances between them; non-trivial: the joint acted and its velocity law was checked",
		Subs: append(laws(rotary), Sub{"converge", 1, func(t *pbt.T) { jointConverges(t, rotary[:3]) }}, Sub{"ratchet-history", 1, ratchetHistory}),
		Pins: []Pin{{"dt-change", func(t *pbt.T) { jointDtChange(t, "motor") }}}})
	register(&Prop{ID: "C19", Quick: 180000, Thorough: 2000000,
		Rule: "two bodies, one spring (its own law or a custom one), 1..8 steps of random dt with disturbances between them; non-trivial: at least one step was checked",
		Subs: append(laws(springs), Sub{"settle", 1, springSettles}, Sub{"energy", 1, springEnergy})})
	register(&Prop{ID: "C18", Quick: 300000, Thorough: 2000000,
		Rule: "two bodies and one joint of any kind with a random (often zero) maximum force, 1..10 steps of random dt with disturbances, removal and re-adding between them and changes made from pre-solve callbacks; non-trivial: a step in which the force limit was reached or a pre-solve callback changed the joint",
		Subs: []Sub{{"limits", 4, jointLimits}, {"sleeping-callbacks", 1, jointSleep}}})
}

func jointLaw(t *pbt.T, kind string) {
	speed := []float64{5, 40, 0}[t.Intn(3)]
	s := genJScene(t, kind, speed)
	t.List(1, 8, func(int) {
		if t.P(1, 3) {
			s.disturb(speed)
		}
		if t.P(1, 5) {
			s.dt = genDt(t)
		}
		if t.P(1, 8) {
			s.j.tune(t)
			t.Logf("now %v", s.j)
		}
		r := s.step()
		t.LabelIf(r.active, "active")
		t.LabelIf(r.exact, "exact")
		t.NonTrivialIf(s.j.isSpring() || r.exact && (r.err > 1e-6 || kind == "motor"))
	})
}

// jointConverges: left alone, with velocities damped away, the error goes to zero.
func jointConverges(t *pbt.T, kinds []string) {
	kind := kinds[t.Intn(len(kinds))]
	s := genJScene(t, kind, 3)
	s.sp.SetGravity(cp.Vector{})
	s.sp.SetDamping(0.01)
	s.j.setErrorBias(math.Pow(0.9, 60))
	s.j.setMaxBias(cp.INFINITY)
	s.gr, s.damp = P{}, 0.01
	s.nearlyClosed()
	s.dt = []float64{1.0 / 60, 1.0 / 120, 1.0 / 30}[t.Intn(3)]
	s.j.asked = nil
	for _, x := range []*PB{s.a, s.b} {
		if x.typ == cp.BODY_KINEMATIC {
			x.b.SetVelocity(0, 0)
			x.b.SetAngularVelocity(0)
		}
	}
	t.Logf("%v left alone for 15 s at dt=%v", s.j, s.dt)
	r := s.step()
	first := r.err
	for i := 0; float64(i)*s.dt < 15; i++ {
		r = s.step()
	}
	tol := 1e-3
	if kind == "groove" {
		tol = 0.1 // an anchor at the end of a groove may chatter
	}
	t.Check(r.err < tol, "converge", "%v: error %v at first, still %v after 15 s", s.j, first, r.err)
	t.NonTrivialIf(first > 0.1)
	if kind == "ratchet" { // back on or past the click it stood on
		rel := s.b.b.Angle() - s.a.b.Angle()
		sg := math.Copysign(1, s.j.ratchet)
		t.Check(rel*sg > s.j.angle*sg-1e-3, "converge", "%v: bodies at %v, behind the click %v", s.j, rel, s.j.angle)
	}
}

// nearlyClosed leaves a positional joint with an error below one, on bodies not too easy to turn.
func (s *JScene) nearlyClosed() {
	t := s.t
	for _, x := range []*PB{s.a, s.b} {
		if x.typ == cp.BODY_DYNAMIC && x.b.Moment() < x.b.Mass() {
			x.b.SetMoment(x.b.Mass())
		}
		x.b.SetVelocity(0, 0)
		x.b.SetAngularVelocity(0)
	}
	j := s.j
	p1, p2 := g(s.a.b.LocalToWorld(v(j.pa))), g(s.b.b.LocalToWorld(v(j.pb)))
	off := P{t.F(-0.7, 0.7), t.F(-0.7, 0.7)}
	gap := p1.Dist(p2)
	switch c := j.c.Class.(type) {
	case *cp.PivotJoint:
		s.b.b.SetPosition(v(g(s.b.b.Position()).Add(p1.Sub(p2)).Add(off)))
	case *cp.PinJoint:
		if gap < 1 {
			t.Discard("no direction")
		}
		j.dist = gap + off.X
		c.Dist = j.dist
	case *cp.SlideJoint:
		if gap < 1 {
			t.Discard("no direction")
		}
		if off.X > 0 {
			j.min, j.max = gap+off.X, gap+off.X+math.Abs(off.Y)
		} else {
			j.min, j.max = 0, gap+off.X
		}
		c.Min, c.Max = j.min, j.max
	case *cp.GrooveJoint:
		// turning couples the directions along and across the groove, and the joint only
		// approximates that (C16 claims nothing there)
		for _, x := range []*PB{s.a, s.b} {
			if x.typ == cp.BODY_DYNAMIC {
				x.b.SetMoment(cp.INFINITY)
			}
		}
		at := j.ga.Lerp(j.gb, t.F(0, 1))
		s.b.b.SetPosition(v(g(s.b.b.Position()).Add(g(s.a.b.LocalToWorld(v(at))).Sub(p2)).Add(off)))
	}
}

// ratchetHistory: pushed back and forth, a ratchet only slips back from a click it has passed
// by what a single step moved it.
func ratchetHistory(t *pbt.T) {
	s := genJScene(t, "ratchet", 3)
	s.sp.SetGravity(cp.Vector{})
	s.gr = P{}
	s.j.setErrorBias(math.Pow(0.9, 60))
	s.j.setMaxBias(cp.INFINITY)
	for _, x := range []*PB{s.a, s.b} {
		if x.rest {
			x.b.SetAngularVelocity(0)
		}
	}
	sg := math.Copysign(1, s.j.ratchet)
	step := math.Abs(s.j.ratchet)
	rel := func() float64 { return (s.b.b.Angle() - s.a.b.Angle()) * sg }
	ph := s.j.phase * sg
	best := math.Inf(-1)
	slips, passed := 0, 0
	t.List(10, 60, func(i int) {
		if t.P(1, 3) {
			f := t.F(-20, 20)
			if s.a.typ == cp.BODY_DYNAMIC {
				s.a.b.SetTorque(-f * s.a.b.Moment())
			}
			if s.b.typ == cp.BODY_DYNAMIC {
				s.b.b.SetTorque(f * s.b.b.Moment())
			}
		}
		back := math.Max(0, -(s.b.b.AngularVelocity()-s.a.b.AngularVelocity())*sg*s.dt)
		was := rel()
		s.step()
		if i == 0 {
			if d := s.j.angle*sg - rel(); d > 0 {
				best = math.Inf(-1) // still behind the angle it was made at
				return
			}
		}
		if c := math.Floor((rel()-ph)/step-1e-9)*step + ph; c > best && (best > math.Inf(-1) || rel() >= s.j.angle*sg-1e-9) {
			best = c
			passed++
		}
		if rel() < best-1e-9 {
			slips++
			// behind: it was ahead before the step and was carried back by its own spin,
			// or it was behind already and has not gone further back
			ok := was >= best-1e-9 && rel() >= was-back-1e-9 || was < best && rel() >= was-1e-9
			t.Check(ok, "slipped", "%v: at %v after the step (%v before, spin carries it back %v), behind the click %v it had passed", s.j, rel(), was, back, best)
		}
	})
	t.LabelIf(slips > 0, "caught-slipping")
	t.NonTrivialIf(slips > 0 && passed > 1)
}

// springScene: two dynamic bodies or one on a fixed one, spring between centres or off them.
func springScene(t *pbt.T, rotary, centred bool) (s *JScene, k float64) {
	kind := "spring"
	if rotary {
		kind = "rotary-spring"
	}
	s = &JScene{t: t, sp: cp.NewSpace(), damp: 1, dt: t.Log(0.004, 0.03), u: 1}
	s.a = genBody(t, s.sp, 0, cp.BODY_DYNAMIC, 6, 2)
	if t.Bool() {
		s.b = genBody(t, s.sp, 1, cp.BODY_DYNAMIC, 6, 2)
	} else {
		s.b = genBody(t, nil, 1, cp.BODY_STATIC, 6, 2)
	}
	for _, x := range []*PB{s.a, s.b} {
		if x.typ == cp.BODY_DYNAMIC && (x.b.Moment() >= cp.INFINITY || x.b.Moment() < x.b.Mass()) {
			x.b.SetMoment(x.b.Mass())
		}
	}
	if t.Bool() {
		s.a, s.b = s.b, s.a
	}
	s.j = genJoint(t, kind, s.a, s.b)
	s.j.force = nil
	switch c := s.j.c.Class.(type) {
	case *cp.DampedSpring:
		c.SpringForceFunc = cp.DefaultSpringForce
		if centred {
			s.j.pa, s.j.pb = g(s.a.b.CenterOfGravity()), g(s.b.b.CenterOfGravity())
			c.AnchorA, c.AnchorB = v(s.j.pa), v(s.j.pb)
		}
	case *cp.DampedRotarySpring:
		rest := s.j
		c.SpringTorqueFunc = func(sp *cp.DampedRotarySpring, x float64) float64 { return (x - rest.rest) * rest.stiff }
	}
	for _, x := range []*PB{s.a, s.b} {
		st := snap(x.b)
		if x.typ == cp.BODY_DYNAMIC {
			if rotary {
				k += st.iInv
			} else if centred {
				k += st.mInv
			} else {
				anchor := s.j.pa
				if x == s.b {
					anchor = s.j.pb
				}
				r := anchor.Sub(st.cog)
				k += st.mInv + st.iInv*r.Dot(r)
			}
		}
	}
	// omega*dt between 0.02 and 0.3 for the stiffest direction
	om := t.Log(0.02, 0.3) / s.dt
	s.j.stiff = om * om / k
	s.sp.AddConstraint(s.j.c)
	return s, k
}

func (s *JScene) setSpring(stiff, damping float64) {
	s.j.stiff, s.j.damping = stiff, damping
	switch c := s.j.c.Class.(type) {
	case *cp.DampedSpring:
		c.Stiffness, c.Damping = stiff, damping
	case *cp.DampedRotarySpring:
		c.Stiffness, c.Damping = stiff, damping
	}
	s.t.Logf("%v dt=%v", s.j, s.dt)
}

func springSettles(t *pbt.T) {
	rot := t.Bool()
	s, k := springScene(t, rot, t.Bool())
	s.damp = 0.5 // takes away what the spring does not see
	s.sp.SetDamping(0.5)
	om := math.Sqrt(s.j.stiff * k)
	zeta := t.Log(0.2, 1)
	s.setSpring(s.j.stiff, 2*zeta*om/k)
	if !rot && s.j.rest < 1 {
		s.j.rest = 1
		s.j.c.Class.(*cp.DampedSpring).RestLength = 1
	}
	if !rot && g(s.a.b.LocalToWorld(v(s.j.pa))).Dist(g(s.b.b.LocalToWorld(v(s.j.pb)))) < 0.1 {
		t.Discard("no direction")
	}
	kmin := 0.0
	for _, x := range []*PB{s.a, s.b} {
		if x.typ == cp.BODY_DYNAMIC {
			if rot {
				kmin += 1 / x.b.Moment()
			} else {
				kmin += 1 / x.b.Mass()
			}
		}
	}
	om, zeta = math.Sqrt(s.j.stiff*kmin), zeta*math.Sqrt(kmin/k)
	n := int(math.Max(10/(om*s.dt)/zeta, 25/s.dt))
	if n > 40000 || om < 2 { // a soft spring only creeps against the damping of the space
		t.Discard("slow")
	}
	for i := 0; i < n; i++ {
		s.j.asked = nil
		s.sp.Step(s.dt)
	}
	var x float64
	if rot {
		x = s.a.b.Angle() - s.b.b.Angle()
	} else {
		x = g(s.a.b.LocalToWorld(v(s.j.pa))).Dist(g(s.b.b.LocalToWorld(v(s.j.pb))))
	}
	t.Check(math.Abs(x-s.j.rest) < 1e-2, "settle", "%v: after %v s at %v, not at rest value %v", s.j, float64(n)*s.dt, x, s.j.rest)
	t.NonTrivial()
}

func springEnergy(t *pbt.T) {
	rot := t.Bool()
	s, _ := springScene(t, rot, true)
	if !rot { // with a rest length the force jumps when the bodies pass through each other
		s.j.rest = 0
		s.j.c.Class.(*cp.DampedSpring).RestLength = 0
	}
	s.setSpring(s.j.stiff, 0)
	energy := func() float64 {
		e := 0.0
		for _, x := range []*PB{s.a, s.b} {
			if x.typ == cp.BODY_DYNAMIC {
				if st := snap(x.b); rot {
					e += st.w * st.w / st.iInv / 2
				} else {
					e += st.v.Dot(st.v) / st.mInv / 2
				}
			}
		}
		x := 0.0
		if rot {
			x = s.a.b.Angle() - s.b.b.Angle()
		} else {
			x = snap(s.a.b).c.Dist(snap(s.b.b).c)
		}
		return e + s.j.stiff*(x-s.j.rest)*(x-s.j.rest)/2
	}
	e0 := energy()
	hi, lo := e0, e0
	for i := 0; i < 1500; i++ {
		s.sp.Step(s.dt)
		e := energy()
		hi, lo = math.Max(hi, e), math.Min(lo, e)
	}
	t.Check(hi <= 2*e0+1e-9 && lo >= e0/2-1e-9, "energy", "%v: energy %v went to %v..%v in 1500 undamped steps", s.j, e0, lo, hi)
	t.NonTrivialIf(e0 > 1e-3)
}

var allJoints = append(append(append([]string(nil), positional...), rotary...), springs...)

func jointLimits(t *pbt.T) {
	kind := allJoints[t.Intn(len(allJoints))]
	speed := []float64{5, 40, 0}[t.Intn(3)]
	s := genJScene(t, kind, speed)
	limit := func() {
		f := []float64{0, t.Log(0.01, 1000), t.F(0, 100), cp.INFINITY}[t.Intn(4)]
		s.j.setMaxForce(f)
	}
	limit()
	pre, post := 0, 0
	var preV, preW, postV, postW [2]float64
	var postJ float64
	changeTo := 0
	two := func(vv, w *[2]float64) {
		vv[0], w[0] = s.a.b.Velocity().X, s.a.b.AngularVelocity()
		vv[1], w[1] = s.b.b.Velocity().Y, s.b.b.AngularVelocity()
	}
	change := func() {
		switch c := s.j.c.Class.(type) {
		case *cp.PinJoint:
			s.j.dist += 1
			c.Dist = s.j.dist
		case *cp.SlideJoint:
			s.j.max += 1
			c.Max = s.j.max
		case *cp.SimpleMotor:
			s.j.rate = -s.j.rate + 1
			c.Rate = s.j.rate
		case *cp.RotaryLimitJoint:
			s.j.min -= 0.5
			c.Min = s.j.min
		case *cp.PivotJoint:
			s.j.pa = s.j.pa.Add(P{0.5, 0})
			c.AnchorA = v(s.j.pa)
		case *cp.GrooveJoint:
			s.j.pb = s.j.pb.Add(P{0.5, 0})
			c.AnchorB = v(s.j.pb)
		case *cp.RatchetJoint:
			s.j.phase += 0.3
			c.Phase = s.j.phase
		case *cp.DampedSpring:
			s.j.rest += 0.5
			c.RestLength = s.j.rest
		case *cp.DampedRotarySpring:
			s.j.stiff *= 2
			c.Stiffness = s.j.stiff
		default:
			s.j.setErrorBias(0.3)
		}
		t.Logf("in pre-solve: now %v", s.j)
	}
	onPre := func(c *cp.Constraint, sp *cp.Space) {
		if c == s.j.c && sp == s.sp {
			pre++
		}
		if post != 0 {
			pre = -100
		}
		two(&preV, &preW)
		switch changeTo {
		case 1:
			change()
		case 2:
			s.j.setMaxForce(0)
		case 3:
			s.j.setMaxForce(5)
		}
	}
	onPost := func(c *cp.Constraint, sp *cp.Space) {
		if c == s.j.c && sp == s.sp {
			post++
		}
		two(&postV, &postW)
		postJ = c.Class.GetImpulse()
	}
	hasPre, hasPost := false, false
	hook := func(pre, post bool) {
		hasPre, hasPost = pre, post
		s.j.c.PreSolve, s.j.c.PostSolve = nil, nil
		if pre {
			s.j.c.PreSolve = onPre
		}
		if post {
			s.j.c.PostSolve = onPost
		}
		t.Logf("callbacks: pre-solve %v, post-solve %v", pre, post)
	}
	hook(t.P(3, 4), t.P(3, 4))
	in := true
	t.List(1, 10, func(int) {
		if t.P(1, 3) {
			s.disturb(speed)
		}
		if t.P(1, 4) {
			s.dt = genDt(t)
		}
		if t.P(1, 5) {
			limit()
			t.Logf("now %v", s.j)
		}
		if t.P(1, 8) {
			if in {
				s.sp.RemoveConstraint(s.j.c)
			} else {
				s.sp.AddConstraint(s.j.c)
			}
			in = !in
			s.j.inert = !in
			t.Logf("in the space: %v", in)
		}
		if t.P(1, 8) {
			hook(t.Bool(), t.Bool())
		}
		changeTo = 0
		if in && hasPre && t.P(1, 4) {
			changeTo = 1 + t.Intn(3)
		}
		pre, post = 0, 0
		var v0, w0 [2]float64
		two(&v0, &w0)
		r := s.step()
		t.Check(s.j.c.MaxForce() == s.j.maxForce && s.j.c.MaxBias() == s.j.maxBias && s.j.c.ErrorBias() == s.j.errorBias, "getter", "%v reports limits %v, %v and %v", s.j, s.j.c.MaxForce(), s.j.c.MaxBias(), s.j.c.ErrorBias())
		nPre, nPost := 0, 0
		if in && hasPre {
			nPre = 1
		}
		if in && hasPost {
			nPost = 1
		}
		t.Check(pre == nPre && post == nPost, "joint-callbacks", "%v: pre-solve called %d times and post-solve %d times, want %d and %d", s.j, pre, post, nPre, nPost)
		if in {
			var v1, w1 [2]float64
			two(&v1, &w1)
			t.Check(!hasPre || preV == v0 && preW == w0, "pre-solve-early", "%v: velocities %v %v in pre-solve, %v %v before the step", s.j, preV, preW, v0, w0)
			t.Check(!hasPost || postV == v1 && postW == w1 && postJ == s.j.c.Class.GetImpulse(), "post-solve-late", "%v: velocities %v %v impulse %v in post-solve, %v %v %v after the step", s.j, postV, postW, postJ, v1, w1, s.j.c.Class.GetImpulse())
			if s.j.maxForce == 0 && !s.j.isSpring() {
				t.Check(r.J.Len() < 1e-6 && math.Abs(r.T) < 1e-6 && s.j.c.Class.GetImpulse() == 0, "inert", "%v: no force allowed, applied %v %v", s.j, r.J, r.T)
				t.Label("zero-max-force")
			}
			t.LabelIf(r.atMax && s.j.maxForce > 0 && !s.j.isSpring(), "at-max-force")
			t.NonTrivialIf(r.atMax && s.j.maxForce > 0 || changeTo > 0)
		} else {
			t.Label("removed")
		}
	})
}

// jointSleep: callbacks stop while the bodies sleep and come back when they wake.
func jointSleep(t *pbt.T) {
	kind := allJoints[t.Intn(len(allJoints))]
	s := &JScene{t: t, sp: cp.NewSpace(), damp: 1, dt: 1.0 / 60, u: 1}
	s.sp.SleepTimeThreshold = 0.1
	s.sp.IdleSpeedThreshold = 1e9
	s.a = genBody(t, s.sp, 0, cp.BODY_DYNAMIC, 4, 0)
	if t.Bool() {
		s.b = genBody(t, s.sp, 1, cp.BODY_DYNAMIC, 4, 0)
	} else {
		s.b = &PB{b: s.sp.StaticBody, id: 1, typ: cp.BODY_STATIC, rest: true}
	}
	if s.a.b.Moment() >= cp.INFINITY {
		s.a.b.SetMoment(3)
	}
	s.j = genJoint(t, kind, s.a, s.b)
	s.sp.AddConstraint(s.j.c)
	pre, post := 0, 0
	s.j.c.PreSolve = func(*cp.Constraint, *cp.Space) { pre++ }
	s.j.c.PostSolve = func(*cp.Constraint, *cp.Space) { post++ }
	t.Logf("%v", s.j)
	slept := false
	for i := 0; i < 40; i++ {
		was := s.a.b.IsSleeping()
		A0 := snap(s.a.b)
		pre, post = 0, 0
		s.sp.Step(s.dt)
		n := 1
		if s.a.b.IsSleeping() {
			n = 0
			slept = true
		}
		t.Check(pre == n && post == n, "joint-callbacks", "%v asleep before %v after %v: pre-solve called %d times and post-solve %d times, want %d", s.j, was, n == 0, pre, post, n)
		if was {
			t.Check(snap(s.a.b) == A0, "joint-moved-sleeper", "%v moved a sleeping body", s.j)
		}
		if was && t.P(1, 4) {
			switch t.Intn(4) {
			case 0:
				s.a.b.Activate()
			case 1:
				s.j.c.SetMaxForce(100)
			case 2:
				s.j.c.SetErrorBias(0.5)
			case 3:
				s.j.c.SetMaxBias(10)
			}
			t.Check(!s.a.b.IsSleeping(), "joint-change-wakes", "%v changed but its body still sleeps", s.j)
			t.Label("woken")
		}
	}
	t.NonTrivialIf(slept)
}

// jointDtChange: the impulse kept from a long step must not be applied whole in a short one.
func jointDtChange(t *pbt.T, kind string) {
	sp := cp.NewSpace()
	sp.SetGravity(cp.Vector{0, -100})
	b := sp.AddBody(cp.NewBody(1, 1))
	b.SetPosition(cp.Vector{0, -10})
	var c *cp.Constraint
	if kind == "pin" {
		c = cp.NewPinJoint(sp.StaticBody, b, cp.Vector{}, cp.Vector{})
	} else {
		c = cp.NewSimpleMotor(sp.StaticBody, b, 0)
		b.SetTorque(50)
		c.SetMaxForce(80)
	}
	sp.AddConstraint(c)
	for i := 0; i < 5; i++ {
		if kind != "pin" {
			b.SetTorque(50)
		}
		sp.Step(0.1)
	}
	if kind != "pin" {
		b.SetTorque(50)
	}
	dt := 0.001
	sp.Step(dt)
	F := c.Class.GetImpulse() / dt
	want, tol := 100.0, 10.0
	if kind != "pin" {
		want = 50
	}
	t.Check(near(F, want, tol), "dt-change", "%s: force %v in the short step after long ones, want %v", kind, F, want)
	t.NonTrivial()
}

// pinCoincident: while its anchors coincide a pin joint has no direction to push in; what it
// could not apply then must not come out later.
func pinCoincident(t *pbt.T) {
	sp := cp.NewSpace()
	a := sp.StaticBody
	if t.Bool() {
		a = sp.AddBody(cp.NewBody(t.Log(0.2, 20), t.Log(0.2, 20)))
	}
	b := sp.AddBody(cp.NewBody(t.Log(0.2, 20), t.Log(0.2, 20)))
	at := P{float64(t.Int(-3, 3)), float64(t.Int(-3, 3))}
	a.SetPosition(v(at))
	b.SetPosition(v(at))
	c := cp.NewPinJoint(a, b, cp.Vector{}, cp.Vector{})
	dist := t.F(0, 5)
	c.Class.(*cp.PinJoint).Dist = dist
	if t.Bool() {
		a, b = b, a // swaps only which is pushed below
	}
	sp.AddConstraint(c)
	dt := genDt(t)
	n := t.Int(1, 20)
	t.Logf("pin joint of length %v with coinciding anchors, %d steps of %v", dist, n, dt)
	for i := 0; i < n; i++ {
		sp.Step(dt)
		t.Check(a.Velocity() == (cp.Vector{}) && b.Velocity() == (cp.Vector{}) && c.Class.GetImpulse() == 0, "no-direction", "step %d: velocities %v and %v, impulse %v", i, a.Velocity(), b.Velocity(), c.Class.GetImpulse())
	}
	off := P{t.Log(0.01, 3), 0}.Rot(t.Angle())
	m := b
	if b == sp.StaticBody {
		m = a
	}
	m.SetPosition(v(at.Add(off)))
	pa, pb := g(a.Position()), g(b.Position())
	sp.Step(dt)
	dir := pb.Sub(pa).Mul(1 / off.Len())
	got := g(b.Velocity()).Sub(g(a.Velocity()))
	// positions move by the velocity before the step: the gap was off when the joint was solved
	want := dir.Mul((1 - math.Pow(math.Pow(0.9, 60), dt)) * (dist - off.Len()) / dt)
	t.Check(got.Dist(want) <= 1e-6*(1+want.Len()), "no-direction", "the anchors, %v apart, part at %v, want %v", off.Len(), got, want)
	t.NonTrivialIf(dist > 0.1)
}
