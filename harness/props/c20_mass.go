package props

import (
	"math"

	"cpverif/geo"
	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C20", Quick: 900000, Thorough: 30000000,
		Rule: "mass functions on random figures; bodies with a history of 1..14 shape and mass changes. Non-trivial: the figure has an offset, or the body had at least two massive shapes with different centres and at least one change after the first",
		Subs: []Sub{{"functions", 2, c20Functions}, {"shape", 2, c20Shape}, {"body", 4, c20Body}},
	})
}

// polyIntegrals: area, centroid and second moment about o.
func polyMoment(v []P, m float64, o P) float64 {
	return m * geo.SecondMoment(v, o) / geo.Area(v)
}

func c20Functions(t *pbt.T) {
	m := t.Log(0.01, 1000) * wide(t)
	switch t.Intn(6) {
	case 5: // two vertices: a thin rod
		a, b, off := genP(t, 10), genP(t, 10), genP(t, 10)
		t.Logf("two vertices %v %v off=%v m=%v", a, b, off, m)
		mid, l := a.Lerp(b, 0.5).Add(off), a.Dist(b)
		want := m * (l*l/12 + mid.Dot(mid))
		got := cp.MomentForPoly(m, 2, vecs([]P{a, b}), v(off), 0)
		t.Check(near(got, want, 1e-9), "moment-poly", "MomentForPoly of two vertices=%v want %v", got, want)
		t.NonTrivialIf(off.Len() > 0)
	case 0:
		r1, r2 := t.F(0, 10), t.F(0, 10)
		off := genP(t, 10)
		t.Logf("circle m=%v r1=%v r2=%v off=%v", m, r1, r2, off)
		t.NonTrivialIf(off.Len() > 0 && r1 != r2)
		want := m * ((r1*r1+r2*r2)/2 + off.Dot(off))
		got := cp.MomentForCircle(m, r1, r2, v(off))
		t.Check(near(got, want, 1e-9), "moment-circle", "MomentForCircle=%v want %v", got, want)
		got = cp.AreaForCircle(r1, r2)
		t.Check(near(got, math.Pi*math.Abs(r1*r1-r2*r2), 1e-9), "area-circle", "AreaForCircle(%v,%v)=%v", r1, r2, got)
	case 1:
		w, h := t.F(0.1, 20), t.F(0.1, 20)
		c := genP(t, 10)
		rect := []P{{-w / 2, -h / 2}, {w / 2, -h / 2}, {w / 2, h / 2}, {-w / 2, h / 2}}
		t.NonTrivialIf(c.Len() > 0)
		t.Logf("box m=%v w=%v h=%v c=%v", m, w, h, c)
		got := cp.MomentForBox(m, w, h)
		t.Check(near(got, polyMoment(rect, m, P{}), 1e-9), "moment-box", "MomentForBox(%v,%v,%v)=%v", m, w, h, got)
		got = cp.MomentForBox2(m, cp.NewBB(c.X-w/2, c.Y-h/2, c.X+w/2, c.Y+h/2))
		want := polyMoment(rect, m, c.Mul(-1))
		t.Check(near(got, want, 1e-9), "moment-box", "MomentForBox2=%v want %v", got, want)
	case 2:
		a, b := genP(t, 10), genP(t, 10)
		if a.Dist(b) < 0.01 {
			t.Discard("degenerate segment")
		}
		r := genRadius(t, 4)
		t.Logf("segment m=%v %v-%v r=%v", m, a, b, r)
		l := a.Dist(b) + 2*r
		mid := a.Lerp(b, 0.5)
		// documented convention: a box as long as the capsule and as thick
		want := m * ((l*l+4*r*r)/12 + mid.Dot(mid))
		got := cp.MomentForSegment(m, v(a), v(b), r)
		t.Check(near(got, want, 1e-9), "moment-segment", "MomentForSegment=%v want %v", got, want)
		want = a.Dist(b)*2*r + math.Pi*r*r
		got = cp.AreaForSegment(v(a), v(b), r)
		t.Check(near(got, want, 1e-9), "area-segment", "AreaForSegment=%v want %v", got, want)
		t.NonTrivialIf(r > 0)
	default:
		size := genSize(t)
		poly := genPoly(t, size, 9)
		if t.P(1, 3) { // a simple concave polygon: dent one edge towards the centroid
			k := t.Intn(len(poly))
			c := geo.Centroid(poly)
			mid := poly[k].Lerp(poly[(k+1)%len(poly)], t.Real(0.3, 0.7)).Lerp(c, t.Real(0.1, 0.8))
			np := append([]P(nil), poly[:k+1]...)
			np = append(np, mid)
			poly = append(np, poly[k+1:]...)
			t.Label("concave")
		}
		off := genP(t, 10)
		if t.P(1, 4) {
			for i := range poly {
				poly[i] = poly[i].Add(off)
			}
		}
		off2 := P{}
		if t.Bool() {
			off2 = genP(t, 10)
		}
		r := genRadius(t, size)
		t.Logf("poly m=%v %v off=%v r=%v", m, poly, off2, r)
		t.NonTrivialIf(off2.Len() > 0)
		vs := vecs(poly)
		per := 0.0
		for i := range poly {
			per += poly[i].Dist(poly[(i+1)%len(poly)])
		}
		sc := 1 + spread(poly) + poly[0].Len() + off2.Len()
		A := geo.Area(poly)
		got := cp.AreaForPoly(len(vs), vs, r)
		t.Check(math.Abs(got-(A+per*r+math.Pi*r*r)) <= 1e-9*sc*sc, "area-poly", "AreaForPoly=%v want %v", got, A+per*r+math.Pi*r*r)
		c := cp.CentroidForPoly(len(vs), vs)
		cond := sc * sc * sc / A * 1e-12
		t.Check(g(c).Dist(geo.Centroid(poly)) <= cond+1e-9*sc, "centroid-poly", "CentroidForPoly=%v want %v", c, geo.Centroid(poly))
		want := polyMoment(poly, m, off2.Mul(-1))
		gotm := cp.MomentForPoly(m, len(vs), vs, v(off2), r)
		t.Check(math.Abs(gotm-want) <= 1e-9*m*sc*sc+m*cond*sc, "moment-poly", "MomentForPoly=%v want %v", gotm, want)
		// the other winding: same moment and centroid, negated area
		rev := make([]cp.Vector, len(vs))
		for i := range vs {
			rev[len(vs)-1-i] = vs[i]
		}
		t.Check(math.Abs(cp.AreaForPoly(len(rev), rev, 0)+A) <= 1e-9*sc*sc, "area-poly", "reversed AreaForPoly=%v want %v", cp.AreaForPoly(len(rev), rev, 0), -A)
		t.Check(g(cp.CentroidForPoly(len(rev), rev)).Dist(g(c)) <= cond+1e-9*sc, "centroid-poly", "reversed centroid %v", cp.CentroidForPoly(len(rev), rev))
		t.Check(math.Abs(cp.MomentForPoly(m, len(rev), rev, v(off2), r)-want) <= 1e-9*m*sc*sc+m*cond*sc, "moment-poly", "reversed moment")
	}
}

// massOf gives area, centre and unit moment about the centre for a definition.
func massOf(d Def) (area float64, c P, i float64) {
	switch d.Kind {
	case "circle":
		return math.Pi * d.R * d.R, d.Pts[0], d.R * d.R / 2
	case "segment":
		l := d.Pts[0].Dist(d.Pts[1])
		w, h := l+2*d.R, 2*d.R
		return l*2*d.R + math.Pi*d.R*d.R, d.Pts[0].Lerp(d.Pts[1], 0.5), (w*w + h*h) / 12
	}
	per := 0.0
	for k := range d.Pts {
		per += d.Pts[k].Dist(d.Pts[(k+1)%len(d.Pts)])
	}
	c = geo.Centroid(d.Pts)
	// the bevel counts for the area only (documented: not supported by moments)
	return geo.Area(d.Pts) + per*d.R + math.Pi*d.R*d.R, c, geo.SecondMoment(d.Pts, c) / geo.Area(d.Pts)
}

func checkShapeMass(t *pbt.T, s *cp.Shape, d Def, m float64) {
	area, c, i := massOf(d)
	cc := c.Dot(c)
	t.Check(math.Abs(s.Mass()-m) <= 1e-9*m, "shape-mass", "%v: Mass()=%v want %v", d, s.Mass(), m)
	t.Check(math.Abs(s.Area()-area) <= 1e-8*area+1e-12*cc, "shape-area", "%v: Area()=%v want %v", d, s.Area(), area)
	t.Check(g(s.CenterOfGravity()).Dist(c) <= 1e-8*(c.Len()+math.Sqrt(i)), "shape-cog", "%v: CenterOfGravity()=%v want %v", d, s.CenterOfGravity(), c)
	t.Check(math.Abs(s.Moment()-m*i) <= 1e-8*m*i+1e-12*m*cc, "shape-moment", "%v: Moment()=%v want %v", d, s.Moment(), m*i)
	if area > 0 {
		t.Check(near(s.Density(), m/area, 1e-8), "shape-density", "%v: Density()=%v want %v", d, s.Density(), m/area)
	}
}

func c20Shape(t *pbt.T) {
	d := genDef(t, genSize(t))
	m := t.Log(0.01, 1000) * wide(t)
	t.Logf("%v m=%v", d, m)
	b := cp.NewBody(0, 0)
	s := d.Make(b)
	checkShapeMass(t, s, d, 0)
	area, _, _ := massOf(d)
	if t.Bool() && area > 0 {
		s.SetDensity(m / area)
	} else {
		s.SetMass(m)
	}
	checkShapeMass(t, s, d, m)
	t.NonTrivial()
}

// setRandomGeometry changes a shape in place through its mutators.
func mutateShape(t *pbt.T, s *cp.Shape, d Def, u float64) Def {
	switch c := s.Class.(type) {
	case *cp.Circle:
		d.R = t.F(0.1, 5) * u
		c.SetRadius(d.R)
	case *cp.Segment:
		if t.Bool() {
			d.R = genRadius(t, 3*u)
			c.SetRadius(d.R)
		} else {
			a, b := genP(t, 5*u), genP(t, 5*u)
			if a.Dist(b) < 0.2*u {
				a, b = P{-u, 0}, P{u, u}
			}
			d.Pts = []P{a, b}
			c.SetEndpoints(v(a), v(b))
		}
	case *cp.PolyShape:
		if t.P(1, 3) {
			d.R = genRadius(t, 3*u)
			c.SetRadius(d.R)
			return d
		}
		pts := genPoly(t, t.Log(0.5, 5)*u, 8)
		d = Def{Kind: "poly", Pts: pts, R: d.R}
		if t.Bool() {
			c.SetVertsRaw(len(pts), vecs(pts))
		} else {
			c.SetVertsUnsafe(len(pts), vecs(pts), cp.NewTransformIdentity())
		}
	}
	return d
}

func c20Body(t *pbt.T) {
	type part struct {
		d  Def
		m  float64
		s  *cp.Shape
		on bool
	}
	var parts []*part
	inSpace := t.Bool()
	var space *cp.Space
	b := cp.NewBody(0, 0)
	if inSpace {
		space = cp.NewSpace()
		space.AddBody(b)
	}
	b.SetPosition(v(genP(t, 10)))
	b.SetAngle(t.Angle())
	dyn := true
	changes := 0
	U := 1.0
	if t.P(1, 4) {
		U = t.Log(0.01, 200)
	}
	massive := func() (n int, M float64, C P, I float64) {
		for _, p := range parts {
			if p.on && p.m > 0 {
				_, c, _ := massOf(p.d)
				M += p.m
				C = C.Add(c.Mul(p.m))
				n++
			}
		}
		if M > 0 {
			C = C.Mul(1 / M)
		}
		for _, p := range parts {
			if p.on && p.m > 0 {
				_, c, i := massOf(p.d)
				I += p.m * (i + c.Dist(C)*c.Dist(C))
			}
		}
		return
	}
	check := func(what string, pos P, ang float64) {
		n, M, C, I := massive()
		t.Logf("%s: %d massive, M=%v C=%v I=%v", what, n, M, C, I)
		t.Check(nearP(g(b.Position()), pos, 1e-8), "body-jumped", "%s moved the body from %v to %v", what, pos, b.Position())
		t.Check(near(b.Angle(), ang, 1e-9), "body-turned", "%s turned the body", what)
		if !dyn {
			t.Check(b.GetType() != cp.BODY_DYNAMIC, "body-type", "%s: type %v", what, b.GetType())
			return
		}
		if M == 0 {
			return
		}
		t.Check(math.Abs(b.Mass()-M) <= 1e-8*M, "body-mass", "after %s: Mass()=%v want %v", what, b.Mass(), M)
		t.Check(nearP(g(b.CenterOfGravity()), C, 1e-7), "body-cog", "after %s: CenterOfGravity()=%v want %v", what, b.CenterOfGravity(), C)
		t.Check(math.Abs(b.Moment()-I) <= 1e-7*I+1e-12*M*C.Dot(C), "body-moment", "after %s: Moment()=%v want %v", what, b.Moment(), I)
		// the centre of gravity is where forces act: an impulse there does not spin the body
		w := b.AngularVelocity()
		vel := b.Velocity()
		b.ApplyImpulseAtWorldPoint(cp.Vector{X: M}, v(C.Rot(ang).Add(pos)))
		t.Check(near(b.AngularVelocity(), w, 1e-7*(1+M*C.Len()/I)), "body-inverse", "an impulse through the centre of gravity spun the body by %v", b.AngularVelocity()-w)
		t.Check(nearV(b.Velocity(), vel.Add(cp.Vector{X: 1}), 1e-7), "body-inverse", "an impulse of M changed velocity from %v to %v", vel, b.Velocity())
		b.SetVelocityVector(vel)
		b.SetAngularVelocity(w)
		for _, p := range parts {
			if p.on {
				checkShapeMass(t, p.s, p.d, p.m)
			}
		}
		if n >= 2 && changes > 0 {
			t.NonTrivial()
		}
	}
	t.List(1, 14, func(int) {
		pos, ang := g(b.Position()), b.Angle()
		on := []*part{}
		off := []*part{}
		for _, p := range parts {
			if p.on {
				on = append(on, p)
			} else {
				off = append(off, p)
			}
		}
		op := t.Weighted(5, 2, 3, 2, 2, 2, 1, 1)
		if len(on) == 0 && op != 6 && op != 7 {
			op = 0
		}
		switch op {
		case 0:
			p := &part{d: genDef(t, t.Log(0.5, 5)*U)}
			p.s = p.d.Make(b)
			early := t.Bool()
			if early {
				p.m = t.Log(0.1, 20)
				p.s.SetMass(p.m)
			}
			if inSpace {
				space.AddShape(p.s)
			} else {
				b.AddShape(p.s)
			}
			p.on = true
			parts = append(parts, p)
			if !early && t.P(2, 3) {
				p.m = t.Log(0.1, 20)
				p.s.SetMass(p.m)
			}
			t.Logf("add %v m=%v early=%v", p.d, p.m, early)
			check("AddShape", pos, ang)
		case 1:
			p := on[t.Intn(len(on))]
			if inSpace {
				space.RemoveShape(p.s)
			} else {
				b.RemoveShape(p.s)
			}
			p.on = false
			changes++
			check("RemoveShape", pos, ang)
		case 2:
			p := on[t.Intn(len(on))]
			p.m = t.Log(0.1, 20)
			if t.P(1, 6) {
				p.m = 0
			}
			p.s.SetMass(p.m)
			changes++
			check("SetMass", pos, ang)
		case 3:
			p := on[t.Intn(len(on))]
			area, _, _ := massOf(p.d)
			den := t.Log(0.05, 5)
			p.m = den * area
			p.s.SetDensity(den)
			changes++
			check("SetDensity", pos, ang)
		case 4:
			p := on[t.Intn(len(on))]
			p.d = mutateShape(t, p.s, p.d, U)
			changes++
			t.Logf("mutate to %v", p.d)
			check("shape mutator", pos, ang)
		case 5: // move
			np := genP(t, 20*U)
			if t.Bool() {
				b.SetPosition(v(np))
				check("SetPosition", np, ang)
			} else {
				// turning keeps the centre of gravity where it is
				na := t.Angle()
				_, M, C, _ := massive()
				if dyn && M > 0 {
					w := C.Rot(ang).Add(pos)
					b.SetAngle(na)
					check("SetAngle", w.Sub(C.Rot(na)), na)
				} else if len(parts) == 0 {
					b.SetAngle(na)
				}
			}
		case 6: // change type and perhaps back
			if dyn {
				b.SetType(cp.BODY_KINEMATIC + t.Intn(2))
				dyn = false
			} else {
				b.SetType(cp.BODY_DYNAMIC)
				dyn = true
			}
			changes++
			check("SetType", pos, ang)
		case 7: // put a removed one back
			if len(off) > 0 {
				p := off[t.Intn(len(off))]
				if inSpace {
					space.AddShape(p.s)
				} else {
					b.AddShape(p.s)
				}
				p.on = true
				changes++
				check("AddShape again", pos, ang)
			}
		}
	})
}
