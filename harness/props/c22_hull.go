package props

import (
	"math"

	"cpverif/geo"
	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C22", Quick: 4000000, Thorough: 40000000,
		Rule: "point sets of 1..40 points (lattice with duplicates and collinear runs, uniform, circles, near-collinear), random transforms and tolerances; non-trivial: the hull has at least 3 corners and at least one input point is not a corner",
		Subs: []Sub{{"hull", 4, c22Hull}, {"polyshape", 3, c22Poly}, {"box", 1, c22Box}},
		Pins: []Pin{{"nearly-collinear", c22Near}},
	})
}

// genPts makes a point set likely to hold duplicates, collinear runs or many corners.
func genPts(t *pbt.T, min, max int) (pts []P, exact bool) {
	mode := t.Intn(6)
	k := t.Int(1, 8)
	sc := 1.0
	if t.P(1, 4) {
		sc = t.Log(1e-2, 1e4)
	}
	var dir P
	if mode == 3 {
		dir = P{t.Real(-1, 1), t.Real(-1, 1)}
	}
	t.List(min, max, func(i int) {
		var p P
		switch mode {
		case 0, 1:
			p = P{float64(t.Int(-k, k)), float64(t.Int(-k, k))}
		case 2:
			a := t.Real(0, 2*math.Pi)
			p = P{math.Cos(a) * sc, math.Sin(a) * sc}
		case 3: // near a line
			s := t.Real(-10, 10)
			p = dir.Mul(s * sc)
			if t.P(1, 4) {
				p = p.Add(P{t.Real(-1, 1), t.Real(-1, 1)}.Mul(sc))
			}
		default:
			p = P{t.F(-10, 10) * sc, t.F(-10, 10) * sc}
		}
		if i > 0 && len(pts) > 0 && t.P(1, 8) {
			p = pts[t.Intn(len(pts))]
		}
		pts = append(pts, p)
	})
	return pts, mode <= 1
}

func spread(pts []P) float64 {
	m := 0.0
	for _, p := range pts {
		m = math.Max(m, p.Dist(pts[0]))
	}
	return m
}

// lineOut is the least distance of p to a line through two of the points.
func lineOut(h []P, p P) float64 {
	m := math.Inf(1)
	for i := range h {
		for j := 0; j < i; j++ {
			m = math.Min(m, math.Abs(h[j].Sub(h[i]).Unit().Cross(p.Sub(h[i]))))
		}
	}
	return m
}

func checkHull(t *pbt.T, what string, in, out []P, exact bool, tol float64) {
	sp := spread(in)
	eps := 1e-9*sp + 1e-12
	for _, p := range in {
		eps = math.Max(eps, 1e-13*p.Len())
	}
	// every output is an input, none twice
	for i, o := range out {
		ok := false
		for _, p := range in {
			if p == o || (!exact && p.Dist(o) <= eps) {
				ok = true
			}
		}
		t.Check(ok, "hull-foreign-point", "%s: %v is not among the inputs %v", what, o, in)
		for j := 0; j < i; j++ {
			t.Check(out[j] != o, "hull-duplicate", "%s: corner %v twice in %v (input %v)", what, o, out, in)
		}
	}
	want := geo.Hull(in)
	if exact && tol == 0 {
		// all corners, in order; further points may lie on the edges between them
		pos := -1
		for i := range want {
			if want[i] == out[0] {
				pos = i
			}
		}
		t.Check(pos >= 0, "hull-corner", "%s: starts at %v, not a corner of %v", what, out[0], want)
		start := pos
		for i := 1; i <= len(out); i++ {
			nxt, o := want[(pos+1)%len(want)], out[i%len(out)]
			if o == nxt {
				pos++
				continue
			}
			cur := want[pos%len(want)]
			on := nxt.Sub(cur).Cross(o.Sub(cur)) == 0 && o.Sub(out[i-1]).Dot(nxt.Sub(cur)) > 0 && nxt.Sub(o).Dot(nxt.Sub(cur)) > 0
			t.Check(on, "hull-order", "%s: %v at place %d of %v is neither the next corner %v nor on the edge to it (input %v)", what, o, i, out, nxt, in)
			t.Label("points on edges kept")
		}
		t.Check(len(want) < 2 || pos == start+len(want), "hull-count", "%s: corners %v, want %v (input %v)", what, out, want, in)
		return
	}
	if len(out) >= 3 {
		hull := geo.Hull(out) // free of spikes made by rounding
		for i := range out {
			a, b, c := out[i], out[(i+1)%len(out)], out[(i+2)%len(out)]
			t.Check(b.Sub(a).Cross(c.Sub(b)) >= -1e-7*sp*sp, "hull-turn", "%s: clockwise turn at %v in %v (input %v)", what, b, out, in)
		}
		if geo.Area(hull) > 1e-3*sp*sp { // no corner can be that sharp
			for i := range out {
				e, f := out[(i+1)%len(out)].Sub(out[i]), out[(i+2)%len(out)].Sub(out[(i+1)%len(out)])
				back := e.Dot(f) < 0 && e.Len() > 1e-6*sp && f.Len() > 1e-6*sp && math.Abs(e.Unit().Cross(f.Unit())) < 1e-9
				t.Check(!back, "hull-backtrack", "%s: turns back on itself at %v in %v (input %v)", what, out[(i+1)%len(out)], out, in)
			}
		}
		// winds once
		t.Check(geo.Area(out) >= -eps*sp, "hull-clockwise", "%s: area %v of %v", what, geo.Area(out), out)
		for _, p := range in {
			d, _ := geo.CoreSigned(hull, p)
			if tol > 0 { // dropped points are that close to a line through two corners
				d = math.Min(d, lineOut(out, p))
			}
			t.Check(d <= tol*1.001+1e-7*sp+eps, "hull-outside", "%s: input %v is outside the hull %v by %v, tolerance %v (input %v)", what, p, out, d, tol, in)
		}
	} else if tol == 0 && len(want) >= 3 {
		t.Check(math.Abs(geo.Area(want)) <= 1e-6*sp*sp, "hull-lost", "%s: hull %v, want %v", what, out, want)
	}
	t.Check(len(out) >= 1, "hull-empty", "%s: empty hull for %v", what, in)
}

func c22Hull(t *pbt.T) {
	pts, exact := genPts(t, 1, 40)
	tol := 0.0
	if t.P(1, 4) {
		tol = t.Real(0, 0.3) * (1 + spread(pts)) * 0.2
	}
	t.Logf("points=%v tol=%v", pts, tol)
	in := append([]P(nil), pts...)
	vs := vecs(pts)
	var first int = -1
	var fp *int
	if t.Bool() {
		fp = &first
	}
	n := cp.ConvexHull(len(vs), vs, fp, tol)
	t.Check(n >= 1 && n <= len(in), "hull-size", "ConvexHull(%v)=%d", in, n)
	var out []P
	for i := 0; i < n; i++ {
		out = append(out, g(vs[i]))
	}
	checkHull(t, "ConvexHull", in, out, exact, tol)
	if fp != nil {
		t.Check(first >= 0 && first < len(in) && in[first] == out[0], "hull-first", "first=%d but hull starts at %v (input %v)", first, out[0], in)
	}
	t.NonTrivialIf(n >= 3 && n < len(in))
	t.LabelIf(tol > 0, "tolerance")
	t.LabelIf(n < 3, "degenerate")
}

func genAffine(t *pbt.T) cp.Transform {
	switch t.Weighted(3, 2, 2, 2) {
	case 0:
		return cp.NewTransformIdentity()
	case 1:
		return cp.NewTransformRigid(v(genP(t, 10)), t.Angle())
	case 2: // mirror / scale
		sx, sy := t.F(-3, 3), t.F(-3, 3)
		if math.Abs(sx) < 0.1 {
			sx = -1
		}
		if math.Abs(sy) < 0.1 {
			sy = 1
		}
		return cp.NewTransformScale(sx, sy)
	}
	m := [4]float64{t.F(-2, 2), t.F(-2, 2), t.F(-2, 2), t.F(-2, 2)}
	if math.Abs(m[0]*m[3]-m[1]*m[2]) < 0.2 {
		m = [4]float64{1, 0.5, 0, 1}
	}
	p := genP(t, 5)
	return cp.NewTransform(m[0], m[1], m[2], m[3], p.X, p.Y)
}

func c22Poly(t *pbt.T) {
	pts, exact := genPts(t, 3, 12)
	h := geo.Hull(pts)
	if len(h) < 3 || geo.Area(h) < 1e-3*spread(pts)*spread(pts) {
		t.Discard("flat polygon")
	}
	tr := genAffine(t)
	r := genRadius(t, 2)
	t.Logf("points=%v transform=%v radius=%v", pts, tr, r)
	vs := vecs(pts)
	var in []P
	for _, p := range vs {
		in = append(in, g(tr.Point(p)))
	}
	exact = exact && tr == cp.NewTransformIdentity()
	b := cp.NewBody(1, 1)
	var s *cp.Shape
	var raw bool
	switch t.Intn(3) {
	case 0:
		s = cp.NewPolyShape(b, len(vs), vs, tr, r)
	case 1:
		s = cp.NewBox(b, 1, 1, r)
		s.Class.(*cp.PolyShape).SetVertsUnsafe(len(vs), vs, tr)
	case 2:
		raw = true
		s = cp.NewPolyShapeRaw(b, len(h), vecs(h), r)
	}
	poly := s.Class.(*cp.PolyShape)
	if s.Body() != b {
		t.Failf("poly-body", "Body()=%v", s.Body())
	}
	t.Check(poly.Radius() == r, "poly-radius", "Radius()=%v want %v", poly.Radius(), r)
	var out []P
	for i := 0; i < poly.Count(); i++ {
		out = append(out, g(poly.Vert(i)))
	}
	for i, p := range pts {
		t.Check(g(vs[i]) == p, "poly-input-changed", "the caller's vertices were changed: %v -> %v", pts, vs)
	}
	if raw {
		t.Check(len(out) == len(h), "poly-raw", "raw polygon has %d of %d vertices", len(out), len(h))
		for i := range h {
			t.Check(out[i] == h[i], "poly-raw", "raw vertex %d is %v want %v", i, out[i], h[i])
		}
	} else {
		checkHull(t, "NewPolyShape", in, out, exact, 0)
	}
	p, a := genP(t, 20), t.Angle()
	b.SetAngle(a)
	b.SetPosition(v(p))
	s.CacheBB()
	for i := range out {
		want := out[i].Rot(a).Add(p)
		t.Check(nearP(g(poly.TransformVert(i)), want, 1e-9), "poly-transform", "TransformVert(%d)=%v want %v", i, poly.TransformVert(i), want)
	}
	t.NonTrivialIf(len(out) >= 3 && len(out) < len(pts))
	t.LabelIf(!raw && tr != cp.NewTransformIdentity(), "transformed")
}

func c22Box(t *pbt.T) {
	w, h, r := t.F(0.1, 20), t.F(0.1, 20), genRadius(t, 2)
	c := genP(t, 10)
	b := cp.NewBody(1, 1)
	var s *cp.Shape
	want := geo.Box{L: -w / 2, B: -h / 2, R: w / 2, T: h / 2}
	two := t.Bool()
	if two {
		want = geo.Box{L: c.X, B: c.Y, R: c.X + w, T: c.Y + h}
		s = cp.NewBox2(b, cp.NewBB(c.X, c.Y, c.X+w, c.Y+h), r)
	} else {
		s = cp.NewBox(b, w, h, r)
	}
	t.Logf("box w=%v h=%v r=%v two=%v at %v", w, h, r, two, c)
	poly := s.Class.(*cp.PolyShape)
	t.Check(poly.Count() == 4, "box-count", "a box has %d vertices", poly.Count())
	var out []P
	for i := 0; i < 4; i++ {
		out = append(out, g(poly.Vert(i)))
	}
	bb := geo.Shape{Core: out}.Bounds()
	t.Check(near(bb.L, want.L, 1e-12) && near(bb.R, want.R, 1e-12) && near(bb.B, want.B, 1e-12) && near(bb.T, want.T, 1e-12), "box-extent", "box %v want %v", bb, want)
	t.Check(near(geo.Area(out), w*h, 1e-9), "box-shape", "box vertices %v: signed area %v want %v", out, geo.Area(out), w*h)
	t.Check(poly.Radius() == r, "poly-radius", "Radius()=%v want %v", poly.Radius(), r)
	t.NonTrivial()
}

// c22Near holds point sets whose hull used to double back on itself.
func c22Near(t *pbt.T) {
	for _, in := range [][]P{
		{{-6.5464304638314665, 0.5078917889278532}, {3.5574529073610535, -0.2759979092619463}, {9, -0.26793664097825465}, {8.063032398613359, -0.6255543340359851}, {3.5367724996051075, -0.2743934609524507}},
		{{-2.6729621360989846, 8.022229111457012}, {-5.977043715493525, 16.579547915395587}, {-1.9372949546254674, 6.1586426848819515}, {-2.8351020891193235, 8.43296078912816}, {-2.668754390095496, 8.011570081754382}},
		{{5.954159882706277, -5.047806539712837}, {1.1112443020056684, -0.9420886179383693}, {5.897607570556612, -4.99986272618944}, {-4.478136747534103, 3.796466404200206}, {5.899738794169993, -5.0016695309620935}, {9.784244662098343, -7.8126848908353965}, {3.7451250355544663, -3.1750351046874443}},
	} {
		vs := vecs(in)
		n := cp.ConvexHull(len(vs), vs, nil, 0)
		var out []P
		for _, x := range vs[:n] {
			out = append(out, g(x))
		}
		checkHull(t, "ConvexHull", in, out, false, 0)
	}
}
