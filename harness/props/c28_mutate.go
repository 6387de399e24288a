package props

import (
	"math"

	"cpverif/geo"
	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C28", Quick: 110000, Thorough: 6000000,
		Rule: "one shape changed 1..8 times (radius, end points, vertices, surface properties, mass, body pose), then compared with a newly built one in boxes, queries, contacts, mass and a few steps against other shapes; and worlds under edits whose boxes are compared with the exact ones; non-trivial: a geometric change and a contact or query hit",
		Subs: []Sub{{"shape", 3, c28Shape}, {"boxes", 1, c28Boxes}, {"poly-reshape", 1, c28Hull}},
		Pins: []Pin{{"segment-endpoints", c28PinSegment}},
	})
}

// rawPoly changes a polygon's vertices in one of the ways the library offers.
func reshape(t *pbt.T, s *cp.Shape, d Def) Def {
	if t.P(1, 4) { // the same form elsewhere or the other way round
		off, ang := genP(t, 5), []float64{0, 0, math.Pi / 2, t.Angle()}[t.Intn(4)]
		pts := make([]P, len(d.Pts))
		for i, p := range d.Pts {
			pts[i] = p.Rot(ang).Add(off)
		}
		switch c := s.Class.(type) {
		case *cp.Segment:
			if t.P(1, 3) {
				pts[0], pts[1] = pts[1], pts[0]
			}
			c.SetEndpoints(v(pts[0]), v(pts[1]))
			t.Label("moved-segment")
			return Def{Kind: "segment", Pts: pts, R: d.R}
		case *cp.PolyShape:
			c.SetVertsRaw(len(pts), vecs(pts))
			t.Label("moved-polygon")
			return Def{Kind: "poly", Pts: pts, R: d.R}
		}
	}
	if c, ok := s.Class.(*cp.PolyShape); ok && t.P(1, 3) {
		pts := genPoly(t, t.Log(0.5, 5), 8)
		switch t.Intn(3) {
		case 0: // extra points inside, and a transform
			pos, ang := genP(t, 2), t.Angle()
			raw := vecs(pts)
			c0 := geo.Centroid(pts)
			raw = append(raw, v(c0), v(c0.Lerp(pts[0], 0.3)))
			sx, sy := 1.0, 1.0
			if t.Bool() {
				sx, sy = t.F(0.5, 2), t.F(0.5, 2)
				if t.Bool() {
					sx = -sx
				}
				if t.P(1, 3) {
					sy = -sy
				}
			}
			c.SetVertsUnsafe(len(raw), raw, cp.NewTransformRigid(v(pos), ang).Mult(cp.NewTransformScale(sx, sy)))
			out := make([]P, len(pts))
			for i, p := range pts {
				q := P{p.X * sx, p.Y * sy}.Rot(ang).Add(pos)
				if sx*sy < 0 { // mirrored: the other way round
					out[len(pts)-1-i] = q
				} else {
					out[i] = q
				}
			}
			return Def{Kind: "poly", Pts: out, R: d.R}
		case 1:
			c.SetVertsRaw(len(pts), vecs(pts))
		case 2:
			vs := vecs(pts)
			c.SetVerts(len(vs), vs)
			c.SetVertsRaw(len(vs), vs) // sets the mass properties too
		}
		return Def{Kind: "poly", Pts: pts, R: d.R}
	}
	return mutateShape(t, s, d, 1)
}

func c28Shape(t *pbt.T) {
	size := t.Log(0.5, 5)
	d := genDef(t, size)
	mb := cp.NewBody(0, 0)
	ms := d.Make(mb)
	mass := t.F(0.1, 5)
	sp1, sp2 := cp.NewSpace(), cp.NewSpace()
	for _, sp := range []*cp.Space{sp1, sp2} {
		sp.Iterations = 10
		sp.SetGravity(cp.Vector{Y: -10})
		sp.SetCollisionSlop(0.05)
	}
	if t.P(1, 2) {
		ms.SetMass(mass)
		sp1.AddBody(mb)
		sp1.AddShape(ms)
	} else {
		sp1.AddBody(mb)
		sp1.AddShape(ms)
		ms.SetMass(mass)
	}
	t.Logf("start with %v mass %v", d, mass)
	var pos P
	ang := 0.0
	e, u, sv := 0.0, 0.0, P{}
	sensor := false
	filter := cp.SHAPE_FILTER_ALL
	geometric := false
	t.List(1, 8, func(int) {
		switch t.Weighted(4, 2, 1, 1, 1, 1, 1, 1, 1) {
		case 0:
			d = reshape(t, ms, d)
			t.Logf("change to %v", d)
			geometric = true
		case 1:
			// the body may turn about its centre of gravity, so set the place last
			ang = t.Angle()
			mb.SetAngle(ang)
			pos = genP(t, 10)
			mb.SetPosition(v(pos))
			t.Logf("place %v %v", pos, ang)
		case 2:
			e = t.F(0, 1)
			ms.SetElasticity(e)
		case 3:
			u = t.F(0, 2)
			ms.SetFriction(u)
		case 4:
			sv = genP(t, 5)
			ms.SetSurfaceV(v(sv))
		case 5:
			sensor = !sensor
			ms.SetSensor(sensor)
		case 6:
			filter = genFilter(t)
			ms.SetFilter(filter)
		case 7:
			mass = t.F(0.1, 5)
			if ms.Area() < 1e-6 || t.Bool() {
				ms.SetMass(mass)
			} else {
				ms.SetDensity(mass / ms.Area())
				t.Check(near(ms.Density(), mass/ms.Area(), 1e-12), "getter", "Density()=%v after setting %v", ms.Density(), mass/ms.Area())
			}
		case 8:
			sp1.ReindexShape(ms)
		}
		if area, c, i := massOf(d); area > 1e-6 {
			t.Check(near(mb.Mass(), mass, 1e-9) && nearP(g(mb.CenterOfGravity()), c, 1e-7) && near(mb.Moment(), mass*i, 1e-7), "body-mass", "after the change to %v the body has mass %v, centre %v and moment %v; want %v, %v and %v", d, mb.Mass(), mb.CenterOfGravity(), mb.Moment(), mass, c, mass*i)
		}
	})
	ms.SetMass(mass)
	mb.SetAngle(ang)
	mb.SetPosition(v(pos))
	sp1.ReindexShape(ms)

	sc := 1 + size + pos.Len() + spread(d.Pts) + d.R
	off := checkGetters(t, ms, d, 1e-9*sc)
	fb := cp.NewBody(0, 0)
	fd := d
	if off > 0 { // the solver sees contacts in the order of the vertices
		fd = Def{Kind: "poly", R: d.R}
		fd.Pts = append(append(fd.Pts, d.Pts[off:]...), d.Pts[:off]...)
	}
	fs := fd.Make(fb)
	fs.SetMass(mass)
	sp2.AddBody(fb)
	sp2.AddShape(fs)
	fb.SetAngle(ang)
	fb.SetPosition(v(pos))
	fs.SetElasticity(e)
	fs.SetFriction(u)
	fs.SetSurfaceV(v(sv))
	fs.SetSensor(sensor)
	fs.SetFilter(filter)

	// getters
	t.Check(ms.Elasticity() == e && ms.Friction() == u && ms.Sensor() == sensor && ms.Filter == filter, "getter", "elasticity %v friction %v sensor %v filter %v; set %v %v %v %v", ms.Elasticity(), ms.Friction(), ms.Sensor(), ms.Filter, e, u, sensor, filter)
	t.Check(ms.Body() == mb && ms.Space() == sp1, "getter", "Body or Space of the shape is wrong")
	geoM := d.At(pos, ang)
	// the reference point of a body is not its centre of gravity, and SetPosition places the former
	for _, b := range []*cp.Body{mb, fb} {
		t.Check(nearP(g(b.Position()), pos, 1e-9) && near(b.Angle(), ang, 1e-12), "getter", "the body is at %v angle %v; set %v %v", b.Position(), b.Angle(), pos, ang)
	}
	bb, want := gb(ms.BB()), geoM.Bounds()
	tol := 1e-9 * sc
	t.Check(math.Abs(bb.L-want.L) <= tol && math.Abs(bb.R-want.R) <= tol && math.Abs(bb.B-want.B) <= tol && math.Abs(bb.T-want.T) <= tol, "box-not-tight", "box %v, tight box %v", bb, want)
	// mass
	t.Check(near(ms.Mass(), fs.Mass(), 1e-9) && near(ms.Moment(), fs.Moment(), 1e-9) && near(ms.Area(), fs.Area(), 1e-9) && nearV(ms.CenterOfGravity(), fs.CenterOfGravity(), 1e-9), "mass-differs", "changed shape: mass %v moment %v area %v centre %v; new one: %v %v %v %v", ms.Mass(), ms.Moment(), ms.Area(), ms.CenterOfGravity(), fs.Mass(), fs.Moment(), fs.Area(), fs.CenterOfGravity())
	t.Check(near(mb.Mass(), fb.Mass(), 1e-9) && near(mb.Moment(), fb.Moment(), 1e-9) && nearV(mb.CenterOfGravity(), fb.CenterOfGravity(), 1e-9), "mass-differs", "body of the changed shape: mass %v moment %v centre %v; of the new one: %v %v %v", mb.Mass(), mb.Moment(), mb.CenterOfGravity(), fb.Mass(), fb.Moment(), fb.CenterOfGravity())
	// queries
	hit := false
	for i := 0; i < 2; i++ {
		p := genNear(t, geoM, size)
		checkPointInfo(t, "PointQuery after changes", geoM, p, ms.PointQuery(v(p)), sc+p.Len())
		a, b, r := genRay(t, geoM, size)
		rs := 1 + size + pos.Len() + a.Len() + b.Len() + spread(d.Pts)
		x := exactRay(geoM, a, b, r, rs)
		var info cp.SegmentQueryInfo
		got := ms.SegmentQuery(v(a), v(b), r, &info)
		if x.sure && !cornerCrack(geoM, a, b, r, x, rs) {
			t.Check(got == x.hit, "ray-hit", "SegmentQuery after changes: %v, want %v", got, x.hit)
			if got {
				checkRayHit(t, "SegmentQuery after changes", geoM, a, b, r, info, x, rs)
				hit = true
			}
		}
	}
	// steps against another shape
	od := genDef(t, size)
	for i := 0; i < 10 && ms.Order() != 0 && orderOf(od) == ms.Order(); i++ {
		od = genDef(t, size) // of another kind, so that the order of the contacts is settled
	}
	if ms.Order() != 0 && orderOf(od) == ms.Order() {
		od = Def{Kind: "circle", R: size, Pts: []P{{}}}
	}
	opos := g(mb.Position()).Add(genP(t, 1.5*size))
	oang := t.Angle()
	var other [2]*cp.Shape
	for i, sp := range []*cp.Space{sp1, sp2} {
		ob := sp.AddBody(cp.NewStaticBody())
		ob.SetPosition(v(opos))
		ob.SetAngle(oang)
		other[i] = sp.AddShape(od.Make(ob))
		other[i].SetElasticity(0.7)
		other[i].SetFriction(0.7)
	}
	t.Logf("other %v at %v %v; %v", od, opos, oang, cp.ShapesCollide(ms, other[0]))
	n, pts := setPts(cp.ShapesCollide(ms, other[0]))
	checkContacts(t, "contacts after changes", geoM, od.At(opos, oang), n, pts, sc+opos.Len()+spread(od.Pts))
	for i := 0; i < 2; i++ {
		for k, b := range []*cp.Body{mb, fb} {
			if i == 0 {
				b.SetVelocity(0, -2)
				b.SetAngularVelocity(0.5)
			}
			[]*cp.Space{sp1, sp2}[k].Step(1.0 / 60)
		}
		t.Logf("step %d: %s / %s", i+1, fmtBody(mb), fmtBody(fb))
		t.Check(nearV(mb.Position(), fb.Position(), 1e-6) && near(mb.Angle(), fb.Angle(), 1e-6) && nearV(mb.Velocity(), fb.Velocity(), 1e-5) && near(mb.AngularVelocity(), fb.AngularVelocity(), 1e-5), "motion-differs", "after step %d the body with the changed shape is at %s, with a new one at %s", i+1, fmtBody(mb), fmtBody(fb))
	}
	t.NonTrivialIf(geometric && (hit || len(pts) > 0))
}

// checkGetters compares what the shape's class reports with its definition.
func checkGetters(t *pbt.T, s *cp.Shape, d Def, tol float64) int {
	switch c := s.Class.(type) {
	case *cp.Circle:
		t.Check(c.Radius() == d.R, "getter", "circle radius %v want %v", c.Radius(), d.R)
	case *cp.Segment:
		t.Check(c.Radius() == d.R && g(c.A()) == d.Pts[0] && g(c.B()) == d.Pts[1], "getter", "segment %v %v r=%v want %v", c.A(), c.B(), c.Radius(), d)
		n := g(c.Normal())
		t.Check(math.Abs(n.Len()-1) < 1e-9 && math.Abs(n.Dot(d.Pts[1].Sub(d.Pts[0]))) <= tol, "getter", "segment normal %v of %v", n, d)
	case *cp.PolyShape:
		t.Check(c.Radius() == d.R && c.Count() == len(d.Pts), "getter", "polygon with %d vertices r=%v, want %d and %v", c.Count(), c.Radius(), len(d.Pts), d.R)
		off := -1
		for k := range d.Pts { // the same polygon may start at another vertex
			if g(c.Vert(0)).Dist(d.Pts[k]) <= tol {
				off = k
				break
			}
		}
		t.Check(off >= 0, "getter", "polygon vertex 0 is %v, not one of %v", c.Vert(0), d.Pts)
		for i := range d.Pts {
			p := d.Pts[(i+off)%len(d.Pts)]
			t.Check(g(c.Vert(i)).Dist(p) <= tol, "getter", "polygon vertex %d is %v want %v", i, c.Vert(i), p)
		}
		if c.Count() > 0 && d.Kind == "poly" {
			return off
		}
	}
	return 0
}

// c28Hull: setting the vertices of a polygon from any points gives the shape a new polygon would have.
func c28Hull(t *pbt.T) {
	pts, _ := genPts(t, 3, 10)
	h := geo.Hull(pts)
	if !niceHull(h, math.Max(1e-9, spread(h)/2)) {
		t.Discard("degenerate hull")
	}
	raw := vecs(pts)
	a := cp.NewPolyShape(cp.NewStaticBody(), len(raw), vecs(pts), cp.NewTransformIdentity(), 0.1)
	b := cp.NewBox(cp.NewStaticBody(), 1, 2, 0.1)
	b.Class.(*cp.PolyShape).SetVertsUnsafe(len(raw), raw, cp.NewTransformIdentity())
	b.CacheBB()
	t.Logf("points %v: vertices %v", pts, core(b))
	for i := range raw {
		t.Check(g(raw[i]) == pts[i], "input-changed", "SetVertsUnsafe changed its input point %d", i)
	}
	t.Check(nearBox(gb(a.CacheBB()), gb(b.CacheBB()), 1e-12), "box-not-tight", "box %v after SetVertsUnsafe, %v for a new shape", b.BB(), a.BB())
	want := geo.Shape{Core: h, R: 0.1}.Bounds()
	t.Check(nearBox(gb(b.BB()), want, 1e-9), "box-not-tight", "box %v, tight box %v", b.BB(), want)
	for i := 0; i < 3; i++ {
		p := genNear(t, geo.Shape{Core: h, R: 0.1}, spread(h))
		checkPointInfo(t, "PointQuery after SetVertsUnsafe", geo.Shape{Core: h, R: 0.1}, p, b.PointQuery(v(p)), 1+spread(h)+p.Len())
	}
	t.NonTrivial()
}

func nearBox(a, b geo.Box, tol float64) bool {
	return near(a.L, b.L, tol) && near(a.R, b.R, tol) && near(a.B, b.B, tol) && near(a.T, b.T, tol)
}

// c28Boxes: in a world under edits every shape's box is the tight box of where it was last updated.
func c28Boxes(t *pbt.T) {
	w := newWorld(t, WCfg{Units: true, Rogues: true, Sleep: t.P(1, 3), Joints: t.P(1, 3), Sensors: true, Retype: t.P(1, 3), Kinematic: true, Mutate: true, Hash: t.P(1, 3), Handlers: 0})
	check := func() {
		for _, ws := range w.shapes {
			if !ws.in {
				continue
			}
			want := ws.eff.Bounds()
			got := gb(ws.s.BB())
			t.Check(nearBox(got, want, 1e-9), "box-not-tight", "step %d: box of %v is %v, tight box %v", w.step, ws, got, want)
		}
	}
	w.afterStep = check
	w.populate()
	w.Run(4, 20, 1, 2)
	check()
	t.NonTrivialIf(w.step > 0)
}

func c28PinSegment(t *pbt.T) {
	mk := func() (*cp.Shape, *cp.Segment) {
		s := cp.NewSegment(cp.NewStaticBody(), cp.Vector{X: -2}, cp.Vector{X: 2}, 0.5)
		s.CacheBB()
		return s, s.Class.(*cp.Segment)
	}
	a, sa := mk()
	b, sb := mk()
	sb.SetEndpoints(cp.Vector{X: -2}, cp.Vector{X: 2})
	b.CacheBB()
	t.Check(nearV(sa.Normal(), sb.Normal(), 1e-12), "getter", "normal %v, after setting the same end points %v", sa.Normal(), sb.Normal())
	for _, p := range []cp.Vector{{}, {X: 1}} {
		x, y := a.PointQuery(p), b.PointQuery(p)
		t.Check(nearV(x.Gradient, y.Gradient, 1e-9), "point-gradient", "gradient at %v: %v, after setting the same end points %v", p, x.Gradient, y.Gradient)
	}
}

func orderOf(d Def) int {
	switch d.Kind {
	case "circle":
		return 0
	case "segment":
		return 1
	}
	return 2
}
