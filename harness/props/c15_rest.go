package props

import (
	"math"

	"cpverif/geo"
	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{ID: "C15", Quick: 32000, Thorough: 250000,
		Rule: "drops of random shapes on flat or sloped ground, stacks of 2..4 boxes on flat ground and on slopes below the friction angle, chains of overlapping shapes left alone, over 2..10 simulated seconds; non-trivial: bodies touched and came to rest (or slid at the predicted rate, or had overlap to remove)",
		Subs: []Sub{{"drop", 3, restDrop}, {"stack", 2, restStack}, {"slope", 2, restSlope}, {"leaning", 2, restLeaning}, {"overlap", 4, restOverlap}, {"pile", 1, restPile}}})
}

// ground makes a static floor whose surface is the line through the origin at an angle.
func ground(t *pbt.T, sp *cp.Space, angle float64) *cp.Shape {
	b := sp.StaticBody
	if t.Bool() {
		b = cp.NewStaticBody()
		b.SetAngle(angle)
		sp.AddBody(b)
		angle = 0
	}
	turn := func(p P) cp.Vector { return v(p.Rot(angle)) }
	var s *cp.Shape
	switch t.Intn(3) {
	case 0:
		r := t.F(0.5, 3)
		s = cp.NewSegment(b, turn(P{-200, -r}), turn(P{200, -r}), r)
	case 1:
		s = cp.NewPolyShapeRaw(b, 4, []cp.Vector{turn(P{-200, -20}), turn(P{200, -20}), turn(P{200, 0}), turn(P{-200, 0})}, 0)
	default:
		r := t.F(0.1, 2)
		s = cp.NewPolyShapeRaw(b, 4, []cp.Vector{turn(P{-200, -20}), turn(P{200, -20}), turn(P{200, -r}), turn(P{-200, -r})}, r)
	}
	return sp.AddShape(s)
}

// solid makes a body with its own shape's mass properties.
func solid(t *pbt.T, sp *cp.Space, d Def, m float64) (*cp.Body, *cp.Shape) {
	b := sp.AddBody(cp.NewBody(0, 0))
	s := d.Make(b)
	s.SetMass(m)
	sp.AddShape(s)
	return b, s
}

func lowest(s *cp.Shape, n P) float64 {
	c := core(s)
	lo := math.Inf(1)
	for _, p := range c.Core {
		lo = math.Min(lo, p.Dot(n))
	}
	return lo - c.R
}

// fat makes a shape with some thickness everywhere.
func fat(t *pbt.T, size float64) Def {
	for i := 0; i < 8; i++ {
		d := genDef(t, size)
		switch d.Kind {
		case "segment":
			d.R = math.Max(d.R, 0.25*size)
		case "circle":
			d.Pts[0] = P{}
		case "box":
			d.W, d.H = math.Max(d.W, 0.6*size), math.Max(d.H, 0.6*size)
		default:
			thin := math.Inf(1)
			for k, p := range d.Pts {
				n := d.Pts[(k+1)%len(d.Pts)].Sub(p).Unit().Left()
				far := 0.0
				for _, q := range d.Pts {
					far = math.Max(far, q.Sub(p).Dot(n))
				}
				thin = math.Min(thin, far)
			}
			if thin < 0.6*size {
				continue
			}
		}
		return d
	}
	return Def{Kind: "circle", R: size, Pts: []P{{}}}
}

func energyOf(b *cp.Body, gr P) float64 {
	s := snap(b)
	return s.m*s.v.Dot(s.v)/2 + s.i*s.w*s.w/2 - s.m*gr.Dot(s.c)
}

func restDrop(t *pbt.T) {
	sp := cp.NewSpace()
	G := t.Log(5, 300)
	gr := P{0, -G}
	sp.SetGravity(v(gr))
	slop := 0.1
	if t.Bool() {
		slop = t.F(0.01, 0.3)
		sp.SetCollisionSlop(slop)
	}
	dt := []float64{1.0 / 60, 1.0 / 120, 1.0 / 240}[t.Intn(3)]
	fl := ground(t, sp, 0)
	e, u := t.F(0, 0.6), t.F(0.3, 1)
	fl.SetElasticity(1)
	fl.SetFriction(1)
	d := fat(t, t.Log(0.5, 4))
	b, s := solid(t, sp, d, t.Log(0.1, 100))
	s.SetElasticity(e)
	s.SetFriction(u)
	b.SetAngle(t.Angle())
	// slow enough not to pass the thinnest part in one step
	thin := 0.4
	vmax := thin / dt / 4
	h := t.F(0, math.Min(10, vmax*vmax/2/G))
	b.SetPosition(cp.Vector{})
	s.Update(cp.NewTransformRigid(cp.Vector{}, b.Angle()))
	b.SetPosition(cp.Vector{X: 0, Y: h - lowest(s, P{0, 1})})
	b.SetVelocity(t.F(-2, 2), -t.F(0, math.Max(0, math.Sqrt(math.Max(0, vmax*vmax-2*G*h))/2)))
	b.SetAngularVelocity(t.F(-1, 1))
	t.Logf("%v m=%v e=%v u=%v gravity %v slop %v dt %v: %s", d, b.Mass(), e, u, G, slop, dt, fmtBody(b))
	e0 := energyOf(b, gr)
	deepest, gained := 0.0, 0.0
	touched := false
	wide := core(s).Bounds()
	speed0 := b.Velocity().Length() + math.Sqrt(2*G*(h+math.Hypot(wide.R-wide.L, wide.T-wide.B)/2)) // it may tip over
	n := int(40 / dt)
	bias, quiet, T := 0.0, 0.0, 0.0
	round := d.Kind == "circle" || d.Kind == "segment" // rolls on
	for i := 0; i < n && quiet < 1; i++ {
		T += dt
		quiet += dt
		if st := snap(b); math.Abs(st.v.Y) > 0.03+G*dt*1.01 || !round && (st.v.Len() > 0.03+G*dt*1.01 || math.Abs(st.w) > 0.05) {
			quiet = 0
		}
		y0 := b.Velocity().Y
		p0 := g(b.LocalToWorld(b.CenterOfGravity()))
		sp.Step(dt)
		p1 := g(b.LocalToWorld(b.CenterOfGravity()))
		if rise := p1.Y - p0.Y - y0*dt; rise > 0 {
			bias += rise // lifted out of the ground, not moved by its velocity
		}
		lo := lowest(s, P{0, 1})
		deepest = math.Min(deepest, lo)
		touched = touched || lo < 1e-6
		// free fall by this integrator gains m g^2 dt^2/2 a step
		allow := b.Mass() * (G*bias + G*G*dt*dt/2*float64(i+1))
		gained = math.Max(gained, (energyOf(b, gr)-e0-allow)/(b.Mass()*(1+speed0*speed0+G)))
		t.Check(finite(p1.X) && finite(p1.Y), "finite", "the body is at %v", p1)
	}
	t.Check(gained < 1e-3, "energy", "energy rose from %v by %v over what the integrator and the lifting out of the ground explain", e0, gained)
	// never deeper than it can fall in one step, plus the overlap allowed
	t.Check(-deepest <= slop+(speed0+G*dt)*dt*1.5+0.05, "sank", "the body sank to %v below the surface (speed %v, dt %v, slop %v)", -deepest, speed0, dt, slop)
	lo := lowest(s, P{0, 1})
	st := snap(b)
	t.NonTrivialIf(touched)
	t.Check(quiet >= 1, "rest-speed", "after %v s it still moves: %v", T, st)
	t.Check(-lo <= slop+0.02+G*dt*dt && lo <= 0.05+G*dt*dt*4, "rest-height", "after %v s its lowest point is %v above the surface (slop %v): %v", T, lo, slop, st)
	left, right := 0.0, 0.0 // how far the points it stands on reach to either side
	for _, p := range core(s).Core {
		if p.Y-d.R < lo+0.03 {
			left, right = math.Max(left, st.c.X-p.X), math.Max(right, p.X-st.c.X)
		}
	}
	for i := 0; float64(i)*dt < 2; i++ {
		sp.Step(dt)
	}
	if now := snap(b); !round && math.Min(left, right) < 0.15 {
		t.Label("perched")
	} else if !round {
		t.Check(now.c.Dist(st.c) < 0.1 && math.Abs(now.a-st.a) < 0.1, "rest-drift", "at rest, it crept from %v to %v in 2 s", st, now)
		t.Label("flat")
	} else if d.Kind == "circle" {
		t.Check(math.Abs(now.c.Y-st.c.Y) < 0.05, "rest-drift", "it rose or sank from %v to %v in 2 s", st, now)
	}
}

func restStack(t *pbt.T) {
	sp := cp.NewSpace()
	G := t.Log(10, 100)
	sp.SetGravity(cp.Vector{0, -G})
	sp.Iterations = uint(t.Int(20, 40))
	dt := []float64{1.0 / 60, 1.0 / 120}[t.Intn(2)]
	fl := ground(t, sp, 0)
	fl.SetFriction(1)
	n := t.Int(2, 4)
	m := t.Log(0.5, 20)
	h := t.F(1, 3)
	w := h * t.F(1.2, 3)
	gap := t.F(0, 0.3)
	r := 0.0
	if t.P(1, 3) {
		r = t.F(0.05, 0.3)
	}
	var bs []*cp.Body
	y := 0.0
	for i := 0; i < n; i++ {
		b, s := solid(t, sp, Def{Kind: "box", W: w, H: h, R: r}, m)
		y += gap + h/2 + r
		b.SetPosition(cp.Vector{X: t.F(-0.1, 0.1) * w, Y: y})
		y += h/2 + r
		s.SetFriction(t.F(0.6, 1))
		bs = append(bs, b)
	}
	t.Logf("%d boxes %vx%v r=%v m=%v, gravity %v, gaps %v, dt=%v, %d iterations", n, w, h, r, m, G, gap, dt, sp.Iterations)
	var x0 []P
	run := func(T float64) {
		for i := 0; float64(i)*dt < T; i++ {
			sp.Step(dt)
		}
	}
	run(4)
	for _, b := range bs {
		x0 = append(x0, g(b.Position()))
	}
	run(4)
	y = 0
	slop := 0.1
	for i, b := range bs {
		st := snap(b)
		want := h/2 + r
		if i > 0 {
			want = h + 2*r
		}
		t.Check(st.v.Len() < 0.05 && math.Abs(st.w) < 0.05, "stack-moves", "box %d of the stack still moves: %v", i, st)
		t.Check(st.c.Y-y <= want+0.02 && st.c.Y-y >= want-slop-0.05, "stack-height", "box %d rests %v above the one below, want %v less at most the slop %v", i, st.c.Y-y, want, slop)
		t.Check(math.Abs(st.a) < 0.1, "stack-tilt", "box %d is tilted: %v", i, st)
		t.Check(g(b.Position()).Dist(x0[i]) < 0.05, "stack-drift", "box %d crept from %v to %v", i, x0[i], b.Position())
		y = st.c.Y
	}
	t.NonTrivial()
}

// restSlope: a box on a slope holds or slides by Coulomb's law.
func restSlope(t *pbt.T) {
	sp := cp.NewSpace()
	G := t.Log(10, 200)
	sp.SetGravity(cp.Vector{0, -G})
	sp.Iterations = 30
	dt := []float64{1.0 / 60, 1.0 / 120}[t.Intn(2)]
	th := t.F(-0.6, 0.6)
	fl := ground(t, sp, th)
	uf := t.F(0.2, 1.5)
	fl.SetFriction(uf)
	u := t.F(0, 1)
	b, s := solid(t, sp, Def{Kind: "box", W: t.F(3, 6), H: t.F(0.5, 1.5)}, t.Log(0.1, 100))
	s.SetFriction(u / uf)
	belt := 0.0
	if t.P(1, 3) {
		belt = t.F(-3, 3)
		if t.Bool() {
			fl.SetSurfaceV(v(P{belt, 0}.Rot(th)))
		} else {
			s.SetSurfaceV(v(P{-belt, 0}.Rot(th)))
		}
	}
	n, along := P{0, 1}.Rot(th), P{1, 0}.Rot(th)
	b.SetAngle(th)
	b.SetPosition(v(n.Mul(-lowest(s, P{0, 1}))))
	b.SetPosition(cp.Vector{})
	s.Update(cp.NewTransformRigid(cp.Vector{}, th))
	b.SetPosition(v(n.Mul(-lowest(s, n) - 0.05)))
	v0 := t.F(-5, 5)
	b.SetVelocityVector(v(along.Mul(v0)))
	t.Logf("slope %v friction %v gravity %v belt %v m=%v v0=%v dt=%v", th, u, G, belt, b.Mass(), v0, dt)
	// the box follows Coulomb's law: compare the speed along the slope with its exact course
	vel := v0
	T := 1.0
	gx, gn := -G*math.Sin(th), G*math.Cos(th)
	worst := 0.0
	for i := 0; float64(i)*dt < T; i++ {
		sp.Step(dt)
		// implicit step of the same law
		f := vel + gx*dt
		target := -belt // relative speed v + surface must vanish; surface_vr is minus the belt's
		target = belt
		switch {
		case f > target+u*gn*dt:
			vel = f - u*gn*dt
		case f < target-u*gn*dt:
			vel = f + u*gn*dt
		default:
			vel = target
		}
		got := g(b.Velocity()).Dot(along)
		worst = math.Max(worst, math.Abs(got-vel))
		if g(b.Position()).Len() > 150 {
			break
		}
	}
	tol := 0.02*(math.Abs(v0)+G*0.1) + 2*G*dt
	t.Check(worst <= tol, "slide", "on a slope of %v with friction %v the speed along it is off Coulomb's law by %v (tolerance %v)", th, u, worst, tol)
	t.Check(math.Abs(g(b.Velocity()).Dot(n)) < 0.1+2*G*dt, "slide-normal", "it leaves the slope at %v", b.Velocity())
	t.NonTrivial()
	t.LabelIf(u > math.Abs(math.Tan(th)), "holds")
	t.LabelIf(belt != 0, "belt")
}

// restOverlap: overlap is removed at the configured rate, down to the slop, with no velocity added.
func restOverlap(t *pbt.T) {
	sp := cp.NewSpace()
	slop, cb := 0.1, math.Pow(0.9, 60)
	if t.Bool() {
		slop = t.F(0, 0.5)
		sp.SetCollisionSlop(slop)
	}
	sp.Iterations = 40
	dt := genDt(t)
	coef := 1 - math.Pow(cb, dt)
	typ := []int{cp.BODY_DYNAMIC, cp.BODY_DYNAMIC, cp.BODY_STATIC, cp.BODY_KINEMATIC}[t.Intn(4)]
	da := genDef(t, 3)
	if da.Kind == "segment" && da.R < 0.3 {
		da.R = 0.3
	}
	central := typ != cp.BODY_DYNAMIC || t.Bool()
	if central && typ == cp.BODY_DYNAMIC {
		da = Def{Kind: "circle", R: t.F(0.5, 3), Pts: []P{{}}}
	}
	a := &PB{id: 0, typ: typ}
	switch typ {
	case cp.BODY_DYNAMIC:
		a.b = cp.NewBody(t.Log(0.1, 50), t.Log(0.5, 100))
	case cp.BODY_STATIC:
		a.b = cp.NewStaticBody()
	default:
		a.b = cp.NewKinematicBody()
	}
	a.b.SetPosition(v(genP(t, 3)))
	a.b.SetAngle(t.Angle())
	sp.AddBody(a.b)
	sa := sp.AddShape(da.Make(a.b))
	db := fat(t, 2)
	if central || t.Bool() {
		db = Def{Kind: "circle", R: t.F(1, 3), Pts: []P{{}}}
	}
	b := &PB{id: 1, b: cp.NewBody(t.Log(0.1, 50), t.Log(0.5, 100))}
	b.b.SetAngle(t.Angle())
	sp.AddBody(b.b)
	sb := sp.AddShape(db.Make(b.b))
	for _, s := range []*cp.Shape{sa, sb} {
		s.SetElasticity(t.F(0, 1))
		s.SetFriction(t.F(0, 1))
	}
	// drift of the whole, for the frame: all move alike
	vel := P{}
	if typ != cp.BODY_STATIC && t.Bool() {
		vel = genP(t, 3)
	}
	if typ != cp.BODY_STATIC {
		a.b.SetVelocityVector(v(vel))
	}
	b.b.SetVelocityVector(v(vel))
	c := &CPair{t: t, sp: sp, a: a, b: b, sa: sa, sb: sb, u: 1}
	c.meet()
	// deeper, towards each other along the line of least penetration
	deep := t.F(0, 0.8)
	A, B := core(sa), core(sb)
	if geo.Gap(A, B) > 0 {
		t.Discard("apart")
	}
	set := cp.ShapesCollide(sa, sb)
	if set.Count == 0 {
		t.Discard("apart")
	}
	b.b.SetPosition(v(g(b.b.Position()).Add(g(set.Normal).Mul(-deep))))
	t.Logf("%v type %d and %v, slop %v bias %v (a step of %v removes %v): %s", da, typ, db, slop, cb, dt, coef, fmtBody(b.b))
	depth := func() float64 { return -geo.Gap(core(sa), core(sb)) }
	sp.Step(dt) // finds the contact; the removal starts with the next step
	d := depth()
	d0 := d
	if d < 0.01 || d > 0.5 && !central {
		t.Discard("no or too much overlap")
	}
	n := t.Int(3, 60)
	exact := central
	if exact { // the least penetration must stay on the same feature
		set := cp.ShapesCollide(sa, sb)
		exact = set.Count == 1 && d < 0.8*math.Min(coreSize(A), coreSize(B))
		if B.Core[0].Dist(mean(A.Core)) < 0.05 {
			t.Discard("centres coincide")
		}
	}
	varying := t.P(1, 3) // steps of different lengths
	t.LabelIf(varying, "varying steps")
	for i := 0; i < n; i++ {
		last := dt
		if varying {
			if next := dt * t.Real(0.4, 1.6); next < 0.1 && coef*next/dt < 0.9 {
				dt = next
			}
		}
		a0, b0 := a.b.Angle(), b.b.Angle()
		sp.Step(dt)
		nd := depth()
		// the last step's velocity of separation is at work for the length of this one
		want := d - coef*dt/last*math.Max(0, d-slop)
		a1, b1 := a.b.Angle()-a0, b.b.Angle()-b0
		turn := (0.02 + 5*(a1*a1+b1*b1)) * (1 - boolF(exact)) // what turns follows an arc
		coef = 1 - math.Pow(cb, dt)
		if exact {
			t.Check(math.Abs(nd-want) < 1e-6*(1+math.Abs(d)), "removal-rate", "step %d: overlap %v became %v, want %v", i, d, nd, want)
		}
		t.Check(nd <= d+1e-6+turn, "deeper", "step %d: overlap grew from %v to %v", i, d, nd)
		t.Check(nd >= math.Min(d, slop)-turn-1e-6, "too-far", "step %d: overlap %v became %v, less than the slop %v", i, d, nd, slop)
		d = nd
		for _, x := range []*PB{a, b} {
			want := vel
			if x.typ == cp.BODY_STATIC {
				want = P{}
			}
			t.Check(g(x.b.Velocity()).Dist(want) < 1e-9 && math.Abs(x.b.AngularVelocity()) < 1e-9, "added-velocity", "removing the overlap gave %v velocity %v and spin %v (they all move at %v)", x, x.b.Velocity(), x.b.AngularVelocity(), vel)
		}
	}
	t.NonTrivialIf(d0 > slop+0.01)
	t.LabelIf(exact, "exact")
}

func boolF(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func coreSize(s geo.Shape) float64 {
	bx := s.Bounds()
	return math.Min(bx.R-bx.L, bx.T-bx.B) / 2
}

// restPile: many shapes in a box come to rest without sinking into each other.
func restPile(t *pbt.T) {
	sp := cp.NewSpace()
	G := t.Log(10, 100)
	sp.SetGravity(cp.Vector{0, -G})
	sp.Iterations = uint(t.Int(10, 30))
	sp.SetDamping(0.5)
	dt := 1.0 / 120
	fl := ground(t, sp, 0)
	fl.SetFriction(1)
	for _, x := range []float64{-9, 9} {
		w := sp.AddShape(cp.NewSegment(sp.StaticBody, cp.Vector{X: x, Y: -5}, cp.Vector{X: x, Y: 200}, 1))
		w.SetFriction(0.5)
	}
	n := t.Int(3, 14)
	var ss []*cp.Shape
	var bs []*cp.Body
	for i := 0; i < n; i++ {
		d := fat(t, 1.5)
		b, s := solid(t, sp, d, t.F(1, 4))
		b.SetAngle(t.Angle())
		b.SetPosition(cp.Vector{X: t.F(-4, 4), Y: 3 + 4.5*float64(i)})
		s.SetFriction(t.F(0.3, 1))
		ss, bs = append(ss, s), append(bs, b)
		t.Logf("body%d %v %s", i, d, fmtBody(b))
	}
	t.Logf("gravity %v", G)
	for i := 0; i < int(12/dt); i++ {
		sp.Step(dt)
	}
	for i, s := range ss {
		p := g(bs[i].LocalToWorld(bs[i].CenterOfGravity()))
		t.Check(p.Y > 0 && math.Abs(p.X) < 8.5, "through", "body%d ended outside the box at %v", i, p)
		t.Check(lowest(s, P{0, 1}) > -0.3, "pile-sank", "body%d is %v deep in the ground", i, -lowest(s, P{0, 1}))
		for k := 0; k < i; k++ {
			gap := geo.Gap(core(s), core(ss[k]))
			t.Check(gap > -0.35, "pile-sank", "body%d and body%d overlap by %v", i, k, -gap)
		}
	}
	t.NonTrivial()
}

// restLeaning: a stack of flat boxes on a slope well below the friction angle stays where it is.
func restLeaning(t *pbt.T) {
	sp := cp.NewSpace()
	G := t.Log(10, 200)
	sp.SetGravity(cp.Vector{0, -G})
	sp.Iterations = uint(t.Int(12, 20))
	dt := []float64{1.0 / 60, 1.0 / 120}[t.Intn(2)]
	th := t.F(0.1, 0.35)
	if t.Bool() {
		th = -th
	}
	fl := ground(t, sp, th)
	fl.SetFriction(1)
	up := P{0, 1}.Rot(th)
	n := t.Int(1, 4)
	h := t.F(0.5, 2)
	m := t.Log(0.5, 20)
	y, gap := 0.0, 0.0
	if t.Bool() {
		gap = t.F(0, 0.2)
	}
	r := 0.0
	if t.P(1, 3) {
		r = t.F(0.05, 0.3)
	}
	var bs []*cp.Body
	for i := 0; i < n; i++ {
		b, s := solid(t, sp, Def{Kind: "box", W: h * t.F(6, 9), H: h, R: r}, m*t.Log(1, 5))
		s.SetFriction(t.F(0.8, 1.2))
		b.SetAngle(th)
		y += gap + r
		b.SetPosition(v(up.Mul(y + h/2).Add(P{1, 0}.Rot(th).Mul(t.F(-0.3, 0.3) * h))))
		y += h + r
		bs = append(bs, b)
	}
	t.Logf("%d boxes of height %v m=%v on a slope of %v, gravity %v dt %v, %d iterations", n, h, m, th, G, dt, sp.Iterations)
	for i := 0; float64(i)*dt < 4; i++ {
		sp.Step(dt)
	}
	var was []P
	for _, b := range bs {
		was = append(was, g(b.Position()))
	}
	for i := 0; float64(i)*dt < 6; i++ {
		sp.Step(dt)
	}
	worst := 0.0
	for i, b := range bs {
		worst = math.Max(worst, g(b.Position()).Dist(was[i]))
	}
	t.Check(worst < 0.05, "lean-drift", "on a slope of %v with enough friction, a box of the stack crept by %v in 6 s", th, worst)
	t.NonTrivial()
}
