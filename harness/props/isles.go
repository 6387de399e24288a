package props

import (
	"fmt"
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

// Isle is a small group of bodies that nothing else ever reaches, kept as plain
// values so that it can be built many times: in several spaces, in several
// coordinate frames, with small disturbances. It has at most one contact pair,
// so that the order in which a space solves things cannot matter.
type Isle struct {
	id     int
	home   P
	bodies []IsBody
	joints []IsJoint
	ops    []IsOp
	pair   [2]int // the bodies whose shapes can meet (-1: none)
	same   bool   // they are of one kind, so either may come first
	fixed  bool   // one of them is static
	balls  bool
	flat   bool // may have exact ties
}

type IsBody struct {
	typ    int
	m, i   float64
	p      P
	a      float64
	v      P
	w      float64
	d      *Def
	heavy  bool // the shape carries the mass
	e, u   float64
	surf   P
	common bool // the space's own static body (placed at the origin, so the shape holds the position)
}

type IsJoint struct {
	kind                string
	a, b                int
	pa, pb, ga, gb      P
	min, max            float64
	phase, ratio        float64
	rest, stiff, damp   float64
	maxForce, maxBias   float64
	errorBias           float64
	world, collide, has bool
}

type IsOp struct {
	step, body, kind int
	x, p             P
	f                float64
}

// Frame is another way to look at a scene: mirrored, turned, moved, with other
// masses and moving.
type Frame struct {
	mir   bool
	th    float64
	off   P
	k     float64 // mass scale
	unit  float64 // length scale
	boost P
	eps   float64 // disturbance of the start
	seed  uint64
	still bool // build static bodies as kinematic ones moving with the frame
}

var plainFrame = Frame{k: 1, unit: 1}

func (f Frame) String() string {
	return fmt.Sprintf("mirror=%v turn=%.6g move=%v masses*%.6g lengths*%.6g boost=%v", f.mir, f.th, f.off, f.k, f.unit, f.boost)
}

func (f Frame) vec(q P) P {
	if f.mir {
		q.Y = -q.Y
	}
	if f.th != 0 {
		q = q.Rot(f.th)
	}
	return f.sized(q)
}
func (f Frame) sized(q P) P {
	if f.unit == 1 {
		return q
	}
	return q.Mul(f.unit)
}
func (f Frame) pos(q P) P { return f.vec(q).Add(f.off) }
func (f Frame) loc(q P) P {
	if f.mir {
		q.Y = -q.Y
	}
	return f.sized(q)
}
func (f Frame) sgn() float64 {
	if f.mir {
		return -1
	}
	return 1
}
func (f Frame) ang(a float64) float64 { return f.sgn()*a + f.th }

func (f Frame) def(d Def) Def {
	if !f.mir && f.unit == 1 {
		return d
	}
	n := d
	n.W, n.H, n.R = d.W*f.unit, d.H*f.unit, d.R*f.unit
	n.Pts = nil
	for _, q := range d.Pts {
		n.Pts = append(n.Pts, f.loc(q))
	}
	if d.Kind == "poly" && f.mir {
		for i, j := 0, len(n.Pts)-1; i < j; i, j = i+1, j-1 {
			n.Pts[i], n.Pts[j] = n.Pts[j], n.Pts[i]
		}
	}
	return n
}

func (f Frame) jig(i, j int) float64 {
	if f.eps == 0 {
		return 0
	}
	return f.eps * (float64(pbt.Mix(f.seed, uint64(i), uint64(j))%2001)/1000 - 1)
}

// state is the base state as seen from the frame after some time.
func (f Frame) state(s St, time float64) St {
	s.c = f.pos(s.c).Add(f.boost.Mul(time))
	s.v = f.vec(s.v).Add(f.boost)
	s.a = f.ang(s.a)
	s.w *= f.sgn()
	return s
}

// IsRun is an isle built in a space.
type IsRun struct {
	is   *Isle
	f    Frame
	b    []*cp.Body
	sh   []*cp.Shape
	js   []*cp.Constraint
	ev   []byte
	trk  [][]St
	cnt  []int
	imp  [][]float64
	slp  [][]bool
	evs  []string
	hit  []bool
	two  int // first step with two contact points, -1
	met  int // first step with any
	edge int // first step in which a one-sided joint stood right at its stop
	ang  []float64
	home *cp.Space
	gone bool
	wild bool
}

// recordIsles puts recording handlers on a space.
func recordIsles(sp *cp.Space) {
	h := sp.NewCollisionHandler(cp.CollisionType(77), cp.CollisionType(77))
	put := func(arb *cp.Arbiter, c byte) {
		a, _ := arb.Shapes()
		r := a.UserData.(*IsRun)
		r.ev = append(r.ev, c)
	}
	h.BeginFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool { put(arb, 'b'); return true }
	h.PreSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool { put(arb, 'p'); return true }
	h.PostSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) { put(arb, 'o') }
	h.SeparateFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) { put(arb, 's') }
}

// build puts the isle into a space.
func (is *Isle) build(sp *cp.Space, f Frame) *IsRun {
	r := &IsRun{is: is, f: f, two: -1, met: -1, edge: -1, home: sp}
	for bi := range is.bodies {
		x := &is.bodies[bi]
		var b *cp.Body
		typ := x.typ
		if typ == cp.BODY_STATIC && f.still {
			typ = cp.BODY_KINEMATIC
		}
		switch {
		case x.common && !f.still && f.th == 0 && !f.mir && f.off == (P{}) && f.unit == 1:
			b = sp.StaticBody
		case typ == cp.BODY_DYNAMIC:
			b = cp.NewBody(x.m*f.k, x.i*f.k*f.unit*f.unit)
		case typ == cp.BODY_KINEMATIC:
			b = cp.NewKinematicBody()
		default:
			b = cp.NewStaticBody()
		}
		if b != sp.StaticBody {
			e := P{}
			if x.typ == cp.BODY_DYNAMIC {
				e = P{f.jig(bi, 0), f.jig(bi, 1)}
				b.SetAngle(f.ang(x.a + f.jig(bi, 2)))
			} else {
				b.SetAngle(f.ang(x.a))
			}
			b.SetPosition(v(f.pos(x.p.Add(e))))
		}
		r.b = append(r.b, b)
		if x.d != nil {
			s := f.def(*x.d).Make(b)
			s.SetElasticity(x.e)
			s.SetFriction(x.u)
			s.SetSurfaceV(v(f.vec(x.surf)))
			s.SetCollisionType(77)
			s.UserData = r
			if x.heavy {
				s.SetMass(x.m * f.k)
			}
			r.sh = append(r.sh, s)
		}
		if b != sp.StaticBody {
			if typ != cp.BODY_STATIC {
				ve := f.vec(x.v).Add(f.boost)
				w := x.w * f.sgn()
				if x.typ == cp.BODY_DYNAMIC {
					ve = ve.Add(P{f.jig(bi, 3), f.jig(bi, 4)})
					w += f.jig(bi, 5)
				}
				b.SetVelocity(ve.X, ve.Y)
				b.SetAngularVelocity(w)
			}
			sp.AddBody(b)
		}
	}
	for _, s := range r.sh {
		sp.AddShape(s)
	}
	for ji := range is.joints {
		r.js = append(r.js, is.joints[ji].build(sp, f, r))
	}
	return r
}

func (j *IsJoint) rotary() bool {
	switch j.kind {
	case "gear", "ratchet", "limit", "motor", "rotary-spring":
		return true
	}
	return false
}

func (j *IsJoint) build(sp *cp.Space, f Frame, r *IsRun) *cp.Constraint {
	a, b := r.b[j.a], r.b[j.b]
	pa, pb := v(f.loc(j.pa)), v(f.loc(j.pb))
	lo, hi := j.min, j.max
	if f.mir {
		lo, hi = -j.max, -j.min
	}
	sg, u := f.sgn(), f.unit
	var c *cp.Constraint
	switch j.kind {
	case "pivot":
		if j.world {
			c = cp.NewPivotJoint(a, b, a.LocalToWorld(pa))
		} else {
			c = cp.NewPivotJoint2(a, b, pa, pb)
		}
	case "pin":
		c = cp.NewPinJoint(a, b, pa, pb)
	case "slide":
		c = cp.NewSlideJoint(a, b, pa, pb, j.min*u, j.max*u)
	case "groove":
		c = cp.NewGrooveJoint(a, b, v(f.loc(j.ga)), v(f.loc(j.gb)), pb)
	case "gear":
		c = cp.NewGearJoint(a, b, sg*j.phase+f.th*(j.ratio-1), j.ratio)
	case "ratchet":
		c = cp.NewRatchetJoint(a, b, sg*j.phase, sg*j.ratio)
	case "limit":
		c = cp.NewRotaryLimitJoint(a, b, lo, hi)
	case "motor":
		c = cp.NewSimpleMotor(a, b, sg*j.rest)
	case "spring":
		c = cp.NewDampedSpring(a, b, pa, pb, j.rest*u, j.stiff*f.k, j.damp*f.k)
	case "rotary-spring":
		c = cp.NewDampedRotarySpring(a, b, sg*j.rest, j.stiff*f.k*u*u, j.damp*f.k*u*u)
	}
	if j.has {
		if j.rotary() {
			c.SetMaxForce(j.maxForce * f.k * u * u)
			c.SetMaxBias(j.maxBias)
		} else {
			c.SetMaxForce(j.maxForce * f.k * u)
			c.SetMaxBias(j.maxBias * u)
		}
		c.SetErrorBias(j.errorBias)
	}
	c.SetCollideBodies(j.collide)
	sp.AddConstraint(c)
	return c
}

// before applies what the isle does ahead of a step.
func (r *IsRun) before(step int) {
	for _, o := range r.is.ops {
		if o.step != step {
			continue
		}
		b, f := r.b[o.body], r.f
		switch o.kind {
		case 0: // impulse at a place in the world, given from the body's centre
			at := g(b.LocalToWorld(b.CenterOfGravity())).Add(f.vec(o.p))
			b.ApplyImpulseAtWorldPoint(v(f.vec(o.x).Mul(f.k)), v(at))
		case 1: // impulse at a place on the body
			b.ApplyImpulseAtLocalPoint(v(f.loc(o.x).Mul(f.k)), v(f.loc(o.p)))
		case 2:
			b.ApplyForceAtWorldPoint(v(f.vec(o.x).Mul(20*f.k)), v(g(b.LocalToWorld(b.CenterOfGravity())).Add(f.vec(o.p))))
		case 3:
			b.ApplyForceAtLocalPoint(v(f.loc(o.x).Mul(20*f.k)), v(f.loc(o.p)))
		case 4:
			ve := f.vec(o.x).Add(f.boost)
			b.SetVelocity(ve.X, ve.Y)
		case 5:
			b.SetAngularVelocity(o.f * f.sgn())
		case 6:
			b.SetTorque(o.f * 10 * f.sgn() * f.k * f.unit * f.unit)
		case 7: // jump by a little
			b.SetPosition(b.Position().Add(v(f.vec(o.p).Mul(0.1))))
		}
	}
}

// after records what a step did.
func (r *IsRun) after() {
	var st []St
	var sl []bool
	for _, b := range r.b {
		s := snap(b)
		st = append(st, s)
		if !(s.c.Dist(r.is.home) < 55 && s.v.Len() < 1e4 && math.Abs(s.w) < 1e4) && b != r.home.StaticBody {
			r.wild = true
		}
		sl = append(sl, b.IsSleeping())
	}
	r.trk = append(r.trk, st)
	r.slp = append(r.slp, sl)
	n := 0
	if p := r.is.pair; p[0] >= 0 {
		b := r.b[p[0]]
		if b.IsSleeping() || r.is.bodies[p[0]].typ != cp.BODY_DYNAMIC {
			b = r.b[p[1]]
		}
		if b != r.home.StaticBody {
			b.EachArbiter(func(arb *cp.Arbiter) { n += arb.Count() })
		}
	}
	if n > 0 && r.met < 0 {
		r.met = len(r.trk) - 1
	}
	if n > 1 && r.two < 0 {
		r.two = len(r.trk) - 1
	}
	r.cnt = append(r.cnt, n)
	var im []float64
	for i, c := range r.js {
		im = append(im, c.Class.GetImpulse())
		if r.edge < 0 && r.atStop(i, c) {
			r.edge = len(r.trk) - 1
		}
	}
	r.imp = append(r.imp, im)
	r.evs = append(r.evs, string(r.ev))
	r.ev = r.ev[:0]
}

// atStop says that a joint is within rounding of its stop, so that chance
// decides whether it holds in this step.
func (r *IsRun) atStop(i int, c *cp.Constraint) bool {
	j := r.is.joints[i]
	a, b := r.b[j.a], r.b[j.b]
	on := func(x, y float64) bool { return math.Abs(x-y) < 1e-9*(1+math.Abs(x)) }
	rel := b.Angle() - a.Angle()
	switch k := c.Class.(type) {
	case *cp.RatchetJoint:
		for len(r.ang) <= i {
			r.ang = append(r.ang, r.trk0(j))
		}
		was := r.ang[i]
		r.ang[i] = k.Angle
		return on(rel, was) || on(rel, k.Angle)
	case *cp.RotaryLimitJoint:
		return on(rel, k.Min) || on(rel, k.Max)
	case *cp.SlideJoint:
		d := g(a.LocalToWorld(k.AnchorA)).Dist(g(b.LocalToWorld(k.AnchorB)))
		return on(d, k.Min) || on(d, k.Max)
	case *cp.GrooveJoint:
		u := g(k.GrooveB).Sub(g(k.GrooveA))
		x := g(a.WorldToLocal(b.LocalToWorld(k.AnchorB))).Sub(g(k.GrooveA)).Dot(u) / u.Dot(u)
		return on(x, 0) || on(x, 1)
	}
	return false
}

// trk0 is the angle a ratchet starts at.
func (r *IsRun) trk0(j IsJoint) float64 {
	return r.f.ang(r.is.bodies[j.b].a) - r.f.ang(r.is.bodies[j.a].a)
}

// open says that the order of shapes or contacts may have mattered by a step:
// a pair of one kind can be seen either way round, which decides exact ties and
// which of two contacts is solved first. Against a static shape the order is
// always the same, unless the index is a hash.
func (r *IsRun) open(step int, hash bool) bool {
	if !r.is.same || r.is.balls || r.is.fixed && !hash {
		return false
	}
	if r.is.flat {
		return r.met >= 0 && r.met <= step
	}
	return r.two >= 0 && r.two <= step
}

// drop takes the isle out of its space.
func (r *IsRun) drop() {
	for _, c := range r.js {
		r.home.RemoveConstraint(c)
	}
	for _, s := range r.sh {
		r.home.RemoveShape(s)
	}
	for _, b := range r.b {
		if b != r.home.StaticBody {
			r.home.RemoveBody(b)
		}
	}
	r.gone = true
}

type IsleCfg struct {
	NoStatic bool // frames may move: no forces tied to the ground
	Common   bool // static shapes may hang on the space's own static body
	Steps    int
	Flat     bool // allow exact grids (general position not needed)
}

func (t2 IsleCfg) num(t *pbt.T, lo, hi float64) float64 {
	if t2.Flat {
		return t.F(lo, hi)
	}
	return t.Real(lo, hi)
}

// genIsle makes an isle around a place.
func genIsle(t *pbt.T, id int, o P, c IsleCfg) *Isle {
	if c.Flat && t.Bool() {
		c.Flat = false
	}
	is := &Isle{id: id, home: o, pair: [2]int{-1, -1}, flat: c.Flat}
	num := func(lo, hi float64) float64 { return c.num(t, lo, hi) }
	pt := func(s float64) P { return P{num(-s, s), num(-s, s)} }
	ang := func() float64 {
		if c.Flat {
			return t.Angle()
		}
		return t.Real(-math.Pi, math.Pi)
	}
	body := func(typ int, p P) *IsBody {
		x := IsBody{typ: typ, m: t.Log(0.2, 20), i: t.Log(0.2, 50), p: p, a: ang()}
		if typ != cp.BODY_STATIC {
			s := []float64{1, 10, 30}[t.Intn(3)]
			if t.P(1, 10) {
				s = t.Log(1e-5, 0.1)
			}
			x.v, x.w = pt(s), num(-s, s)/4
		}
		is.bodies = append(is.bodies, x)
		return &is.bodies[len(is.bodies)-1]
	}
	shape := func(x *IsBody, size float64) {
		d := genDef(t, size)
		if !c.Flat { // off the grid
			for i := range d.Pts {
				d.Pts[i] = d.Pts[i].Mul(1 + 0.03*math.Sin(size*77+1))
			}
			k := 1 + 0.03*math.Sin(size*77+1)
			d.W, d.H = d.W*k, d.H*k
		}
		x.d = &d
		x.e, x.u = t.F(0, 1), t.F(0, 1.5)
		if t.P(1, 5) {
			x.surf = pt(3)
		}
		if x.typ == cp.BODY_DYNAMIC && t.P(1, 3) {
			if d.Kind != "segment" || d.R > 0 {
				x.heavy = true
			}
		}
	}
	// toward aims two bodies at each other
	meet := func(ai, bi int, size float64) {
		a, b := &is.bodies[ai], &is.bodies[bi]
		dir := P{1, 0}.Rot(ang())
		if b.typ == cp.BODY_STATIC && !c.Flat {
			dir = P{1, 0}.Rot(ang())
		}
		b.p = o
		a.p = o.Add(dir.Mul(num(0.6, 2.2) * size))
		sp := t.Log(0.5, 25)
		if a.typ == cp.BODY_DYNAMIC {
			a.v = dir.Mul(-sp).Add(pt(1))
		} else if b.typ == cp.BODY_DYNAMIC {
			b.v = dir.Mul(sp).Add(pt(1))
		}
		is.pair = [2]int{ai, bi}
		is.same = a.d.Kind == b.d.Kind || a.d.Kind != "circle" && a.d.Kind != "segment" && b.d.Kind != "circle" && b.d.Kind != "segment"
		is.fixed = a.typ == cp.BODY_STATIC || b.typ == cp.BODY_STATIC
		is.balls = a.d.Kind == "circle" && b.d.Kind == "circle"
	}
	other := func() int {
		switch t.Weighted(4, 2, 1) {
		case 0:
			return cp.BODY_DYNAMIC
		case 1:
			if !c.NoStatic {
				return cp.BODY_STATIC
			}
		}
		return cp.BODY_KINEMATIC
	}
	joint := func(a, b int) {
		j := IsJoint{a: a, b: b, collide: true}
		all := []string{"pivot", "pin", "slide", "groove", "gear", "ratchet", "limit", "motor", "spring", "rotary-spring"}
		j.kind = all[t.Intn(len(all))]
		x, y := &is.bodies[a], &is.bodies[b]
		// anchors that meet, or nearly
		j.pa, j.pb = pt(2), pt(2)
		at := x.p.Add(j.pa.Rot(x.a))
		if t.Bool() {
			j.pb = at.Sub(y.p).Rot(-y.a).Add(pt(0.3))
		}
		gap := at.Dist(y.p.Add(j.pb.Rot(y.a)))
		rel := y.a - x.a
		switch j.kind {
		case "pivot":
			j.world = t.Bool()
			if !j.world && gap > 1 {
				j.pb = at.Sub(y.p).Rot(-y.a).Add(pt(0.3))
			}
		case "slide":
			j.min = math.Max(0, gap-num(0, 1))
			j.max = gap + num(-0.2, 1)
			if j.max < j.min {
				j.max = j.min
			}
		case "groove":
			d := P{1, 0}.Rot(ang()).Mul(t.Log(0.5, 4))
			m := y.p.Add(j.pb.Rot(y.a)).Sub(x.p).Rot(-x.a).Add(pt(0.2))
			j.ga, j.gb = m.Sub(d.Mul(num(0, 1))), m.Add(d)
		case "gear":
			j.ratio = num(0.3, 3)
			if t.Bool() {
				j.ratio = -j.ratio
			}
			j.phase = y.a*j.ratio - x.a + num(-0.5, 0.5)
		case "ratchet":
			j.ratio, j.phase = num(0.2, 2), num(-3, 3)
			if t.Bool() {
				j.ratio = -j.ratio
			}
		case "limit":
			j.min = rel - num(0, 0.5)
			j.max = j.min + num(0, 1)
		case "motor":
			j.rest = num(-5, 5)
		case "spring":
			j.rest, j.stiff, j.damp = num(0, 4), num(0, 40), num(0, 5)
		case "rotary-spring":
			j.rest, j.stiff, j.damp = rel+num(-2, 2), num(0, 40), num(0, 5)
		}
		if t.P(1, 3) {
			j.has = true
			j.maxForce = cp.INFINITY
			if t.Bool() {
				j.maxForce = t.Log(1, 500)
			}
			j.maxBias = cp.INFINITY
			if t.Bool() {
				j.maxBias = t.Log(0.1, 20)
			}
			j.errorBias = math.Pow(t.F(0.5, 0.99), 60)
		}
		is.joints = append(is.joints, j)
	}
	size := t.Log(0.5, 3)
	switch t.Weighted(4, 4, 3, 2, 2, 1) {
	case 0: // something falling on something fixed
		if c.NoStatic {
			body(cp.BODY_KINEMATIC, o)
			is.bodies[0].v, is.bodies[0].w = P{}, 0
		} else {
			body(cp.BODY_STATIC, o)
		}
		shape(&is.bodies[0], size*t.F(1, 4))
		is.bodies[0].surf = P{}
		if t.P(1, 3) {
			is.bodies[0].surf = pt(3)
		}
		body(cp.BODY_DYNAMIC, o)
		shape(&is.bodies[1], size)
		meet(1, 0, size*2)
		if c.Common && is.bodies[0].typ == cp.BODY_STATIC && t.Bool() {
			x := &is.bodies[0]
			x.common = true
			d := *x.d
			d.Pts = append([]P(nil), d.Pts...)
			for i := range d.Pts {
				d.Pts[i] = d.Pts[i].Rot(x.a).Add(x.p)
			}
			if d.Kind == "box" {
				d.Kind = "poly"
			}
			x.d, x.a, x.p = &d, 0, P{}
		}
	case 1:
		body(cp.BODY_DYNAMIC, o)
		shape(&is.bodies[0], size)
		body(cp.BODY_DYNAMIC, o)
		shape(&is.bodies[1], size*t.F(0.5, 2))
		meet(0, 1, size*1.6)
	case 2:
		body(cp.BODY_DYNAMIC, o.Add(pt(2)))
		body(other(), o.Add(pt(2)))
		if t.Bool() {
			joint(0, 1)
		} else {
			joint(1, 0)
		}
		if t.P(1, 3) {
			joint(0, 1)
		}
		if t.P(1, 3) { // shapes that the joint keeps from touching
			shape(&is.bodies[0], size)
			shape(&is.bodies[1], size)
			is.joints[0].collide = false
		}
	case 3: // jointed and touching
		body(cp.BODY_DYNAMIC, o)
		shape(&is.bodies[0], size)
		body(other(), o)
		shape(&is.bodies[1], size*t.F(0.5, 2))
		meet(0, 1, size*1.6)
		body(cp.BODY_DYNAMIC, is.bodies[0].p.Add(pt(3)))
		if t.Bool() {
			joint(0, 2)
		} else {
			joint(2, 0)
		}
		if t.P(1, 3) {
			joint(0, 1)
		}
	case 4: // a chain
		n := t.Int(2, 4)
		for i := 0; i < n; i++ {
			typ := cp.BODY_DYNAMIC
			if i == 0 {
				typ = other()
			}
			body(typ, o.Add(P{float64(i) * 2, 0}).Add(pt(0.8)))
			if i > 0 {
				joint(i-1, i)
			}
		}
	default:
		body(cp.BODY_DYNAMIC, o)
		if t.Bool() {
			shape(&is.bodies[0], size)
		}
	}
	if len(is.joints) == 0 { // a joint needs something that can turn
		for i := range is.bodies {
			if is.bodies[i].typ == cp.BODY_DYNAMIC && t.P(1, 10) {
				is.bodies[i].i = cp.INFINITY
			}
		}
	}
	t.List(0, 3, func(int) {
		op := IsOp{step: t.Intn(c.Steps), body: t.Intn(len(is.bodies)), kind: t.Intn(8), x: pt(5), p: pt(1), f: num(-3, 3)}
		if is.bodies[op.body].typ == cp.BODY_DYNAMIC {
			is.ops = append(is.ops, op)
		}
	})
	return is
}

func (is *Isle) log(t *pbt.T) {
	if !t.Verbose {
		return
	}
	t.Logf("isle %d:", is.id)
	for i, x := range is.bodies {
		t.Logf("  body %d type %d m=%.6g i=%.6g p=%v a=%.6g v=%v w=%.6g common=%v", i, x.typ, x.m, x.i, x.p, x.a, x.v, x.w, x.common)
		if x.d != nil {
			t.Logf("    %v heavy=%v e=%.4g u=%.4g surface %v", *x.d, x.heavy, x.e, x.u, x.surf)
		}
	}
	for _, j := range is.joints {
		t.Logf("  joint %+v", j)
	}
	for _, o := range is.ops {
		t.Logf("  op %+v", o)
	}
}

// dist is how far two states of a body are apart.
func (a St) dist(b St) float64 {
	d := math.Max(a.c.Dist(b.c), math.Abs(a.a-b.a))
	d = math.Max(d, math.Max(a.v.Dist(b.v), math.Abs(a.w-b.w)))
	if math.IsNaN(d) {
		return math.Inf(1)
	}
	return d
}

func (a St) size() float64 {
	return 1 + a.c.Len() + a.v.Len() + math.Abs(a.a) + math.Abs(a.w)
}
