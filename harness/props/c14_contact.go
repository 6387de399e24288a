package props

import (
	"fmt"
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{ID: "C14", Quick: 140000, Thorough: 2500000,
		Rule: "two bodies of any type, one shape each (circle, segment, box, polygon, centre of gravity off or on), random elasticity, friction and surface velocity, 1..10 steps of random dt with teleports, kicks, forces between them; non-trivial: a step in which the contact pushed",
		Subs: []Sub{{"pair", 5, contactPair}, {"no-impulse", 1, contactNone}, {"elastic", 1, contactElastic}},
		Pins: []Pin{{"dt-change", contactDtPin}, {"touch-again", contactAgainPin}}})
}

// CPair is two bodies with one shape each, and what their contact did in the last step.
type CPair struct {
	t          *pbt.T
	sp         *cp.Space
	a, b       *PB
	sa, sb     *cp.Shape
	ea, eb     float64
	ua, ub     float64
	va, vb     P // surface velocities
	gr         P
	damp, dt   float64
	u          float64 // unit of length
	reject     bool    // by pre-solve
	refuse     bool    // by begin
	began      bool
	pre, post  int
	preA, preB St
	set        cp.ContactPointSet
	total      P
	first      bool
}

func genContactBody(t *pbt.T, sp *cp.Space, id, typ int, d Def, speed float64) (*PB, *cp.Shape) {
	x := &PB{id: id, typ: typ}
	switch typ {
	case cp.BODY_DYNAMIC:
		x.b = cp.NewBody(t.Log(0.1, 50)*wide(t), t.Log(0.1, 100)*wide(t))
	case cp.BODY_KINEMATIC:
		x.b = cp.NewKinematicBody()
	default:
		x.b = cp.NewStaticBody()
	}
	x.b.SetPosition(v(genP(t, 3)))
	if t.P(3, 4) {
		x.b.SetAngle(t.Angle())
	}
	if typ != cp.BODY_STATIC {
		x.b.SetVelocity(t.F(-speed, speed), t.F(-speed, speed))
		x.b.SetAngularVelocity(t.F(-speed, speed) / 3)
	}
	sp.AddBody(x.b)
	s := d.Make(x.b)
	sp.AddShape(s)
	if typ == cp.BODY_DYNAMIC {
		if t.P(1, 3) && s.Area() > 1e-6 {
			p := x.b.Position()
			s.SetMass(x.b.Mass())
			x.b.SetPosition(p)
			if !(x.b.Moment() > 1e-3) {
				x.b.SetMoment(1)
			}
			t.Label("offset-cog")
		} else if t.P(1, 6) {
			x.b.SetMoment(cp.INFINITY)
			t.Label("infinite-moment")
		}
	}
	t.Logf("%v: type %d %v m=%.6g i=%.6g cog=%v %s", x, typ, d, x.b.Mass(), x.b.Moment(), x.b.CenterOfGravity(), fmtBody(x.b))
	return x, s
}

func genContactPair(t *pbt.T, typA, typB int, speed float64) *CPair {
	c := &CPair{t: t, sp: cp.NewSpace(), damp: 1, dt: genDt(t), u: 1}
	if t.P(1, 6) {
		c.u = t.Log(0.01, 100)
	}
	c.sp.Iterations = 60
	if t.P(1, 4) {
		c.gr = genP(t, 30)
	}
	if t.P(1, 4) {
		c.damp = t.Real(0.1, 1)
	}
	c.sp.SetGravity(v(c.gr))
	c.sp.SetDamping(c.damp)
	c.a, c.sa = genContactBody(t, c.sp, 0, typA, genDef(t, 2*c.u), speed)
	c.b, c.sb = genContactBody(t, c.sp, 1, typB, genDef(t, 2*c.u), speed)
	c.sa.SetCollisionType(1)
	c.sb.SetCollisionType(2)
	c.tune()
	h := c.sp.NewCollisionHandler(1, 2)
	if t.Bool() {
		h = c.sp.NewCollisionHandler(2, 1)
	}
	h.BeginFunc = func(arb *cp.Arbiter, sp *cp.Space, _ interface{}) bool {
		c.began = true
		return !c.refuse
	}
	h.PreSolveFunc = func(arb *cp.Arbiter, sp *cp.Space, _ interface{}) bool {
		c.pre++
		c.preA, c.preB = snap(c.a.b), snap(c.b.b)
		c.set = arb.ContactPointSet()
		c.first = arb.IsFirstContact()
		if s1, _ := arb.Shapes(); s1 != c.sa {
			c.set = mirrorSet(c.set)
		}
		return !c.reject
	}
	h.PostSolveFunc = func(arb *cp.Arbiter, sp *cp.Space, _ interface{}) {
		c.post++
		c.total = g(arb.TotalImpulse())
		if s1, _ := arb.Shapes(); s1 != c.sa {
			c.total = c.total.Mul(-1)
		}
		t.Check(g(arb.TotalImpulse()).Len() < 1e300, "impulse-finite", "total impulse %v", arb.TotalImpulse())
	}
	return c
}

func mirrorSet(s cp.ContactPointSet) cp.ContactPointSet {
	s.Normal = s.Normal.Neg()
	for i := range s.Points {
		s.Points[i].PointA, s.Points[i].PointB = s.Points[i].PointB, s.Points[i].PointA
	}
	return s
}

func (c *CPair) tune() {
	t := c.t
	coef := func() float64 { return []float64{0, 1, t.F(0, 1), t.F(0, 2)}[t.Intn(4)] }
	c.ea, c.eb, c.ua, c.ub = coef(), coef(), coef(), coef()
	c.sa.SetElasticity(c.ea)
	c.sb.SetElasticity(c.eb)
	c.sa.SetFriction(c.ua)
	c.sb.SetFriction(c.ub)
	c.va, c.vb = P{}, P{}
	if t.P(1, 3) {
		c.va = genP(t, 5).Mul(wide(t))
	}
	if t.P(1, 4) {
		c.vb = genP(t, 5).Mul(wide(t))
	}
	c.sa.SetSurfaceV(v(c.va))
	c.sb.SetSurfaceV(v(c.vb))
	t.Logf("elasticity %v %v friction %v %v surface velocity %v %v", c.ea, c.eb, c.ua, c.ub, c.va, c.vb)
}

// meet teleports b so that the two shapes overlap slightly (or are slightly apart).
func (c *CPair) meet() {
	t := c.t
	n := P{1, 0}.Rot(t.Angle())
	A, B := core(c.sa), core(c.sb)
	// exact support distance along n
	hi := math.Inf(-1)
	for _, p := range A.Core {
		hi = math.Max(hi, p.Dot(n))
	}
	lo := math.Inf(1)
	for _, p := range B.Core {
		lo = math.Min(lo, p.Dot(n))
	}
	side := t.F(-0.5, 0.5) * c.u // off centre a little
	depth := []float64{t.F(0, 0.05), t.F(0.05, 0.5), -t.F(0, 0.05)}[t.Weighted(3, 3, 1)] * c.u
	ca, cb := mean(A.Core), mean(B.Core)
	d := n.Mul(hi + A.R - lo + B.R - depth).Add(n.Left().Mul(ca.Sub(cb).Dot(n.Left()) + side))
	c.b.b.SetPosition(v(g(c.b.b.Position()).Add(d)))
	c.sp.ReindexShape(c.sb)
	t.Logf("%v put against %v along %v, overlap %v: %s", c.b, c.a, n, depth, fmtBody(c.b.b))
}

func mean(ps []P) (m P) {
	for _, p := range ps {
		m = m.Add(p.Mul(1 / float64(len(ps))))
	}
	return
}

func (c *CPair) kick(speed float64) {
	t := c.t
	x := []*PB{c.a, c.b}[t.Intn(2)]
	if x.typ == cp.BODY_STATIC {
		return
	}
	switch t.Intn(3) {
	case 0:
		x.b.SetVelocity(t.F(-speed, speed), t.F(-speed, speed))
	case 1:
		x.b.SetAngularVelocity(t.F(-speed, speed))
	case 2:
		if x.typ == cp.BODY_DYNAMIC {
			x.b.SetForce(v(genP(t, 200)))
			x.b.SetTorque(t.F(-50, 50))
		}
	}
	t.Logf("%v kicked: %s f=%v t=%v", x, fmtBody(x.b), x.b.Force(), x.b.Torque())
}

// push pushes the bodies towards each other.
func (c *CPair) approach(speed float64) {
	d := g(c.b.b.Position()).Sub(g(c.a.b.Position())).Unit().Mul(c.t.F(0, speed))
	for _, x := range []*PB{c.a, c.b} {
		if x.typ != cp.BODY_STATIC {
			x.b.SetVelocity(d.X, d.Y)
		}
		d = d.Mul(-1)
	}
	c.t.Logf("driven together: %v and %v", c.a.b.Velocity(), c.b.b.Velocity())
}

// step takes a step and checks the contact's law in it.
func (c *CPair) step() (pushed bool) {
	t := c.t
	c.pre, c.post = 0, 0
	c.total = P{}
	v0a, v0b := snap(c.a.b), snap(c.b.b)
	t.Logf("step dt=%v: a %v, b %v", c.dt, v0a, v0b)
	c.sp.Step(c.dt)
	A1, B1 := snap(c.a.b), snap(c.b.b)
	A0, B0 := A1, B1
	A0.v, A0.w, A0.f, A0.t = v0a.v, v0a.w, v0a.f, v0a.t
	B0.v, B0.w, B0.f, B0.t = v0b.v, v0b.w, v0b.f, v0b.t
	if c.pre > 0 {
		sameState(t, "pre-solve", "pre-solve sees a", c.preA, A0, 1e-12)
		sameState(t, "pre-solve", "pre-solve sees b", c.preB, B0, 1e-12)
	}
	As, Bs := A0, B0 // with nothing but the integrator
	damp := math.Pow(c.damp, c.dt)
	if c.a.typ == cp.BODY_DYNAMIC {
		As = A0.fall(c.gr, damp, c.dt)
	}
	if c.b.typ == cp.BODY_DYNAMIC {
		Bs = B0.fall(c.gr, damp, c.dt)
	}
	inf := c.a.typ != cp.BODY_DYNAMIC && c.b.typ != cp.BODY_DYNAMIC
	acts := c.pre > 0 && !c.reject && !c.sa.Sensor() && !c.sb.Sensor() && !inf
	t.Check(c.pre <= 1, "pre-solve-count", "pre-solve called %d times in a step", c.pre)
	want := 0
	if acts {
		want = 1
	}
	t.Check(!c.refuse || c.pre == 0, "refused", "pre-solve called for a contact its begin refused")
	t.Check(c.post == want, "post-solve-count", "post-solve called %d times, want %d (pre-solve %d, rejected %v)", c.post, want, c.pre, c.reject)
	if !acts {
		sameState(t, "untouched", "a, with no contact to push it", A1, As, 1e-11)
		sameState(t, "untouched", "b, with no contact to push it", B1, Bs, 1e-11)
		return false
	}
	// scale of the velocities involved, for tolerances
	n := g(c.set.Normal)
	cnt := c.set.Count
	arm := 0.0
	for i := 0; i < cnt; i++ {
		arm = math.Max(arm, math.Max(g(c.set.Points[i].PointA).Dist(A1.c), g(c.set.Points[i].PointB).Dist(B1.c)))
	}
	vs := 1 + As.v.Len() + Bs.v.Len() + A0.v.Len() + B0.v.Len() + (math.Abs(As.w)+math.Abs(Bs.w)+math.Abs(A0.w)+math.Abs(B0.w))*arm + c.va.Len() + c.vb.Len()
	// the impulse, from the lighter body's change of momentum
	J, ms := B1.v.Sub(Bs.v).Mul(B1.m), B1.m
	if B1.mInv == 0 {
		J, ms = As.v.Sub(A1.v).Mul(A1.m), A1.m
	} else if A1.mInv != 0 && A1.m < B1.m {
		J2 := As.v.Sub(A1.v).Mul(A1.m)
		t.Check(J.Dist(J2) <= 1e-9*vs*(A1.m+B1.m)+1e-8*J.Len(), "equal-and-opposite", "a lost momentum %v, b gained %v", J2, J)
		J, ms = J2, A1.m
	} else if A1.mInv != 0 {
		J2 := As.v.Sub(A1.v).Mul(A1.m)
		t.Check(J.Dist(J2) <= 1e-9*vs*(A1.m+B1.m)+1e-8*J.Len(), "equal-and-opposite", "a lost momentum %v, b gained %v", J2, J)
	}
	for i, x := range []*PB{c.a, c.b} {
		if x.typ != cp.BODY_DYNAMIC {
			s0, s1 := []St{v0a, v0b}[i], []St{A1, B1}[i]
			t.Check(s0.v == s1.v && s0.w == s1.w, "infinite-mass-pushed", "%v of infinite mass was pushed: %v to %v", x, s0, s1)
		}
	}
	eps := 1e-9*vs*ms + 1e-8*J.Len()
	Jn, Jt := J.Dot(n), J.Dot(n.Left())
	e, u := c.ea*c.eb, c.ua*c.ub
	sv := c.vb.Sub(c.va)
	sv = sv.Sub(n.Mul(sv.Dot(n)))
	what := fmt.Sprintf("impulse %v on b, normal %v (normal part %.9g, tangential %.9g, friction %v, elasticity %v, %d points)", J, n, Jn, Jt, u, e, cnt)
	t.Check(Jn >= -eps, "pull", "%s: it pulls the bodies together", what)
	t.Check(math.Abs(Jt) <= u*math.Max(Jn, 0)+eps*(1+u), "coulomb", "%s: more than friction allows", what)
	// reported impulse
	t.Check(c.total.Dist(J.Mul(-1)) <= eps*2, "reported-impulse", "%s: the arbiter reports %v as the impulse on the first body, want %v", what, c.total, J.Mul(-1))
	// torque: the impulses act at the contact points
	reach := 0.0
	lo, hi := [2]float64{math.Inf(1), math.Inf(1)}, [2]float64{math.Inf(-1), math.Inf(-1)}
	for i := 0; i < cnt; i++ {
		for k, q := range []P{g(c.set.Points[i].PointA).Sub(A1.c), g(c.set.Points[i].PointB).Sub(B1.c)} {
			m := q.Cross(n)*Jn + q.Cross(n.Left())*Jt
			lo[k], hi[k] = math.Min(lo[k], m), math.Max(hi[k], m)
			reach = math.Max(reach, q.Len())
		}
	}
	if cnt > 1 { // the share of each point is free; bound by each share's extremes
		for k := 0; k < 2; k++ {
			lo[k], hi[k] = math.Inf(1), math.Inf(-1)
			for i := 0; i < cnt; i++ {
				q := []P{g(c.set.Points[i].PointA).Sub(A1.c), g(c.set.Points[i].PointB).Sub(B1.c)}[k]
				for _, ft := range []float64{-1, 1} {
					m := Jn * (q.Cross(n) + ft*u*q.Cross(n.Left()))
					lo[k], hi[k] = math.Min(lo[k], m), math.Max(hi[k], m)
				}
			}
		}
	}
	teps := (eps + 1e-9*vs*ms) * (1 + reach) * 2
	for k, x := range []St{A1, B1} {
		if x.iInv == 0 {
			continue
		}
		L := (x.w - []St{As, Bs}[k].w) * x.i
		if k == 0 {
			L = -L
		}
		et := teps + 1e-9*vs/math.Max(arm, 0.1)*x.i
		t.Check(L >= lo[k]-et && L <= hi[k]+et, "torque", "%s: turned %v by angular impulse %.9g, its points allow %.9g..%.9g", what, []*PB{c.a, c.b}[k], L, lo[k], hi[k])
	}
	// the velocities the contact leaves
	conv := c.converged(n, A1, B1, u)
	t.LabelIf(!conv, "not-converged")
	rel := func(A, B St, i int) P {
		return B.vel(g(c.set.Points[i].PointB)).Sub(A.vel(g(c.set.Points[i].PointA)))
	}
	tol := 1e-6 * vs * (1 + u)
	if conv {
		open := false
		slip := 0.0
		for i := 0; i < cnt; i++ {
			r0, r1 := rel(A0, B0, i).Dot(n), rel(A1, B1, i).Dot(n)
			t.Check(r1 >= -e*r0-tol, "bounce", "%s: point %d leaves at normal velocity %v, it came at %v", what, i, r1, r0)
			if r1 > -e*r0+tol {
				open = true
			}
			slip = rel(A1, B1, i).Add(sv).Dot(n.Left())
		}
		if cnt == 1 && Jn > eps*100 {
			t.Check(!open, "bounce", "%s: it acted, and left more than the bounce asked for", what)
		}
		if cnt == 2 && Jn > eps*100 {
			all := true
			for i := 0; i < cnt; i++ {
				all = all && rel(A1, B1, i).Dot(n) > -e*rel(A0, B0, i).Dot(n)+tol
			}
			t.Check(!all, "bounce", "%s: it acted, and left both points faster than the bounce asked for", what)
		}
		if Jn > eps*100 && cnt == 1 {
			if math.Abs(slip) > tol*10 {
				t.Check(math.Abs(Jt+math.Copysign(u*Jn, slip)) <= (eps+1e-6*Jn)*(1+u)*10, "friction", "%s: still slips at %v, friction should be at its limit against it", what, slip)
				t.LabelIf(u > 0, "slides")
			} else {
				t.LabelIf(u > 0, "sticks")
			}
		} else if Jn > eps*100 {
			if math.Abs(slip) > tol*10+1e-6 && math.Abs(math.Abs(Jt)-u*Jn) > (eps+1e-5*Jn)*(1+u)*10 {
				// the two points lie on one line along n only up to the overlap: compare their slips
				s0, s1 := rel(A1, B1, 0).Add(sv).Dot(n.Left()), rel(A1, B1, 1).Add(sv).Dot(n.Left())
				same := math.Copysign(1, s0) == math.Copysign(1, s1) && math.Min(math.Abs(s0), math.Abs(s1)) > tol*10
				t.Check(!same, "friction", "%s: both points slip at %v and %v, friction %v should be at its limit against it", what, s0, s1, Jt)
			}
		}
	}
	t.LabelIf(Jn > eps*100 && cnt == 2, "two-points")
	t.LabelIf(Jn > eps*100 && !c.first, "persistent")
	t.LabelIf(Jn > eps*100 && cnt == 1 && conv, "one-point")
	t.LabelIf(Jn > eps*100 && e > 0, "bouncy")
	return Jn > eps*100
}

// converged bounds how far the solver's iterations can still be from their limit.
func (c *CPair) converged(n P, A, B St, u float64) bool {
	tt := n.Left()
	k := func(i, j int, d1, d2 P) float64 {
		ra1, ra2 := g(c.set.Points[i].PointA).Sub(A.c), g(c.set.Points[j].PointA).Sub(A.c)
		rb1, rb2 := g(c.set.Points[i].PointB).Sub(B.c), g(c.set.Points[j].PointB).Sub(B.c)
		return d1.Dot(d2)*(A.mInv+B.mInv) + A.iInv*ra1.Cross(d1)*ra2.Cross(d2) + B.iInv*rb1.Cross(d1)*rb2.Cross(d2)
	}
	var rows []struct {
		i int
		d P
	}
	for i := 0; i < c.set.Count; i++ {
		rows = append(rows, struct {
			i int
			d P
		}{i, n})
		if u > 0 {
			rows = append(rows, struct {
				i int
				d P
			}{i, tt})
		}
	}
	// Diagonal dominance gives geometric convergence of projected Gauss-Seidel; friction scales its bound.
	worst := 0.0
	for _, r := range rows {
		sum := 0.0
		for _, q := range rows {
			if q != r {
				x := math.Abs(k(r.i, q.i, r.d, q.d)) / k(r.i, r.i, r.d, r.d)
				if q.d == n && r.d == tt {
					x *= 1
				}
				if r.d == n && q.d == tt {
					x *= math.Max(1, u)
				}
				sum += x
			}
		}
		worst = math.Max(worst, sum)
	}
	return worst < 0.7
}

func genTypes(t *pbt.T) (int, int) {
	typA, typB := cp.BODY_DYNAMIC, cp.BODY_DYNAMIC
	switch t.Weighted(3, 2, 2) {
	case 1:
		typB = []int{cp.BODY_STATIC, cp.BODY_KINEMATIC}[t.Intn(2)]
	case 2:
		typA = []int{cp.BODY_STATIC, cp.BODY_KINEMATIC}[t.Intn(2)]
	}
	return typA, typB
}

func contactPair(t *pbt.T) {
	typA, typB := genTypes(t)
	speed := []float64{5, 40, 1, t.Log(1e-3, 3000)}[t.Weighted(3, 3, 3, 2)]
	c := genContactPair(t, typA, typB, speed)
	c.meet()
	t.List(1, 10, func(i int) {
		if t.P(1, 3) {
			c.kick(speed)
		}
		if t.P(1, 5) && i > 0 {
			c.meet()
		}
		if t.P(1, 3) {
			c.approach(speed)
		}
		if t.P(1, 4) {
			c.dt = genDt(t)
		}
		if t.P(1, 6) && i > 0 {
			c.tune()
		}
		if t.P(1, 8) && i > 0 { // leave for a step or two
			c.b.b.SetPosition(v(g(c.b.b.Position()).Add(P{1000, 0})))
			n := t.Int(1, 4)
			t.Logf("%v taken away for %d steps", c.b, n)
			for ; n > 0; n-- {
				c.step()
			}
			c.meet()
		}
		if c.step() {
			t.NonTrivial()
		}
	})
}

// contactNone: sensors, rejected contacts and pairs of infinite mass exchange nothing.
func contactNone(t *pbt.T) {
	kind := t.Intn(4)
	typA, typB := genTypes(t)
	if kind == 3 {
		typA, typB = cp.BODY_KINEMATIC, []int{cp.BODY_KINEMATIC, cp.BODY_STATIC}[t.Intn(2)]
	}
	c := genContactPair(t, typA, typB, 10)
	on := true
	set := func() {
		switch kind {
		case 0:
			[]*cp.Shape{c.sa, c.sb}[t.Intn(2)].SetSensor(on)
			if !on {
				c.sa.SetSensor(false)
				c.sb.SetSensor(false)
			}
		case 1:
			c.reject = on
		case 2:
			c.refuse = on
		}
		t.Logf("kind %d on=%v", kind, on)
	}
	set()
	c.meet()
	t.List(1, 8, func(i int) {
		if t.P(1, 4) && i > 0 && kind < 2 {
			on = !on
			set()
		}
		if t.P(1, 3) {
			c.approach(10)
		}
		if t.P(1, 4) {
			c.meet()
		}
		c.step()
		met := c.pre > 0 || kind == 2 && c.began
		t.NonTrivialIf(met && on)
		t.LabelIf(met && on, fmt.Sprintf("kind%d", kind))
	})
}

// contactElastic: frictionless, perfectly elastic single-point impacts keep the kinetic energy.
func contactElastic(t *pbt.T) {
	typA, typB := genTypes(t)
	c := genContactPair(t, typA, typB, 10)
	c.sp.SetGravity(cp.Vector{})
	c.sp.SetDamping(1)
	c.gr, c.damp = P{}, 1
	c.ea, c.eb, c.ua, c.ub = 1, 1, 0, 0
	c.sa.SetElasticity(1)
	c.sb.SetElasticity(1)
	c.sa.SetFriction(0)
	c.sb.SetFriction(0)
	for _, x := range []*PB{c.a, c.b} {
		if x.typ == cp.BODY_KINEMATIC {
			x.b.SetVelocity(0, 0)
		}
		if x.typ == cp.BODY_KINEMATIC || x.b.Moment() >= cp.INFINITY {
			x.b.SetAngularVelocity(0)
		}
	}
	c.meet()
	energy := func() (e float64) {
		for _, x := range []*PB{c.a, c.b} {
			if s := snap(x.b); x.typ == cp.BODY_DYNAMIC {
				e += s.v.Dot(s.v) * s.m / 2
				if s.iInv != 0 {
					e += s.w * s.w * s.i / 2
				}
			}
		}
		return
	}
	e0 := energy()
	acted := c.step()
	e1 := energy()
	if c.pre > 0 && c.set.Count == 1 {
		t.Check(near(e1, e0, 1e-9), "elastic", "kinetic energy %v before an elastic impact, %v after", e0, e1)
		t.NonTrivialIf(acted)
	}
	if c.pre > 0 {
		t.Check(e1 <= e0*(1+1e-6)+1e-9 || c.set.Count == 2, "elastic", "kinetic energy %v before, %v after", e0, e1)
	}
}

func contactDtPin(t *pbt.T) {
	sp := cp.NewSpace()
	sp.SetGravity(cp.Vector{0, -100})
	ground := sp.AddShape(cp.NewSegment(sp.StaticBody, cp.Vector{-50, 0}, cp.Vector{50, 0}, 0))
	b := sp.AddBody(cp.NewBody(1, 1))
	s := sp.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
	b.SetPosition(cp.Vector{0, 0.95})
	ground.SetCollisionType(1)
	s.SetCollisionType(2)
	var J float64
	sp.NewCollisionHandler(1, 2).PostSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) { J = arb.TotalImpulse().Length() }
	for i := 0; i < 3; i++ {
		sp.Step(0.05)
	}
	vy := b.Velocity().Y
	sp.Step(0.001)
	t.Check(near(J, 0.1, 0.01) && near(b.Velocity().Y, vy, 1e-6), "dt-change", "resting ball: impulse %v in a step of 0.001 after ones of 0.05, want 0.1; velocity %v to %v", J, vy, b.Velocity().Y)
	t.NonTrivial()
}

// contactAgainPin: shapes that part and touch again within a few steps start with no impulse.
func contactAgainPin(t *pbt.T) {
	sp := cp.NewSpace()
	var bs [2]*cp.Body
	for i := range bs {
		bs[i] = sp.AddBody(cp.NewBody(1, 1))
		sp.AddShape(cp.NewCircle(bs[i], 1, cp.Vector{}))
	}
	put := func(x, vx float64) {
		bs[0].SetPosition(cp.Vector{})
		bs[1].SetPosition(cp.Vector{X: x})
		bs[0].SetVelocity(0, 0)
		bs[1].SetVelocity(vx, 0)
		sp.Step(0.001)
	}
	put(1.95, -10) // a hard hit
	put(10, 0)
	put(1.95, 0) // and a touch with no speed at all
	t.Check(near(bs[0].Velocity().X, 0, 1e-9) && near(bs[1].Velocity().X, 0, 1e-9), "touch-again", "bodies touching at rest move at %v and %v", bs[0].Velocity(), bs[1].Velocity())
	t.NonTrivial()
}
