package props

import (
	"math"

	"cpverif/geo"
	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C23", Quick: 12000000, Thorough: 200000000,
		Rule: "each case draws vectors, boxes, scalars or transforms (whole, half, log-scaled 1e-3..1e6 and coincident values) and checks one family of identities; non-trivial: no operand is zero and operands differ",
		Subs: []Sub{
			{"vector", 4, c23Vector}, {"angle", 3, c23Angle}, {"slerp", 2, c23Slerp}, {"scalar", 1, c23Scalar},
			{"bb", 4, c23BB}, {"bbsegment", 3, c23BBSegment}, {"wrap", 1, c23Wrap},
			{"transform", 4, c23Transform}, {"transformspecial", 2, c23TransformSpecial}, {"closest", 2, c23Closest},
		},
	})
}

func genNum(t *pbt.T) float64 {
	switch t.Weighted(3, 3, 3, 1) {
	case 0:
		return t.F(-10, 10)
	case 1:
		return float64(t.Int(-5, 5))
	case 2:
		x := t.Log(1e-3, 1e6)
		if t.Bool() {
			x = -x
		}
		return x
	}
	return 0
}

func genNV(t *pbt.T) cp.Vector { return cp.Vector{X: genNum(t), Y: genNum(t)} }

// pickNV sometimes repeats or negates an earlier vector.
func pickNV(t *pbt.T, prev cp.Vector) cp.Vector {
	switch t.Weighted(8, 1, 1) {
	case 1:
		return prev
	case 2:
		return cp.Vector{X: -prev.X, Y: -prev.Y}
	}
	return genNV(t)
}

func c23Vector(t *pbt.T) {
	a := genNV(t)
	b := pickNV(t, a)
	s := genNum(t)
	A, B := g(a), g(b)
	t.Logf("a=%v b=%v s=%v", A, B, s)
	t.NonTrivialIf(A.Len() > 0 && B.Len() > 0 && A != B)
	sc := 1 + A.Len() + B.Len()
	eqv := func(name string, got cp.Vector, want P, tol float64) {
		t.Check(g(got).Finite() && g(got).Dist(want) <= tol, name, "%s: got %v want %v (a=%v b=%v s=%v)", name, got, want, A, B, s)
	}
	eqf := func(name string, got, want, tol float64) {
		t.Check(finite(got) && math.Abs(got-want) <= tol, name, "%s: got %v want %v (a=%v b=%v s=%v)", name, got, want, A, B, s)
	}
	eqv("Add", a.Add(b), P{A.X + B.X, A.Y + B.Y}, 1e-12*sc)
	eqv("Sub", a.Sub(b), P{A.X - B.X, A.Y - B.Y}, 1e-12*sc)
	eqv("Neg", a.Neg(), P{-A.X, -A.Y}, 0)
	eqv("Mult", a.Mult(s), P{A.X * s, A.Y * s}, 1e-12*(1+A.Len()*math.Abs(s)))
	eqf("Dot", a.Dot(b), A.X*B.X+A.Y*B.Y, 1e-12*sc*sc)
	eqf("Cross", a.Cross(b), A.X*B.Y-A.Y*B.X, 1e-12*sc*sc)
	eqv("Perp", a.Perp(), P{-A.Y, A.X}, 0)
	eqv("ReversePerp", a.ReversePerp(), P{A.Y, -A.X}, 0)
	eqf("Length", a.Length(), math.Hypot(A.X, A.Y), 1e-9*sc)
	eqf("LengthSq", a.LengthSq(), A.X*A.X+A.Y*A.Y, 1e-12*sc*sc)
	eqf("Distance", a.Distance(b), A.Dist(B), 1e-9*sc)
	eqf("DistanceSq", a.DistanceSq(b), A.Dist(B)*A.Dist(B), 1e-9*sc*sc)
	t.Check(a.Equal(b) == (A == B), "Equal", "Equal(%v,%v)=%v", A, B, a.Equal(b))
	t.Check(a.Equal(a.Clone()), "Clone", "Clone(%v)=%v", A, a.Clone())
	if d := A.Dist(B); math.Abs(d-math.Abs(s)) > 1e-9*(sc+math.Abs(s)) {
		t.Check(a.Near(b, math.Abs(s)) == (d < math.Abs(s)), "Near", "Near(%v,%v,%v)=%v", A, B, math.Abs(s), a.Near(b, math.Abs(s)))
	}
	if A.Len() > 1e-3 {
		n := g(a.Normalize())
		t.Check(math.Abs(n.Len()-1) < 1e-9 && math.Abs(n.Cross(A)) < 1e-9*sc && n.Dot(A) > 0, "Normalize", "Normalize(%v)=%v", A, n)
	}
	t.Check(cp.Vector{}.Normalize() == (cp.Vector{}), "Normalize zero", "Normalize(0)=%v", cp.Vector{}.Normalize())
	if B.Len() > 1e-3 {
		p := g(a.Project(b))
		t.Check(p.Finite() && math.Abs(p.Cross(B)) < 1e-9*sc*sc && math.Abs(A.Sub(p).Dot(B)) < 1e-9*sc*sc, "Project", "Project(%v on %v)=%v", A, B, p)
	}
	// lerp
	k := t.F(-1, 2)
	eqv("Lerp", a.Lerp(b, k), P{A.X*(1-k) + B.X*k, A.Y*(1-k) + B.Y*k}, 1e-11*sc)
	// clamp
	l := math.Abs(s)
	c := g(a.Clamp(l))
	t.Check(c.Finite() && c.Len() <= l*(1+1e-9)+1e-12, "Clamp length", "Clamp(%v,%v)=%v", A, l, c)
	if A.Len() <= l {
		t.Check(c.Dist(A) <= 1e-12*sc, "Clamp keeps", "Clamp(%v,%v)=%v", A, l, c)
	} else {
		t.Check(math.Abs(c.Len()-l) <= 1e-9*(1+l) && math.Abs(c.Cross(A)) <= 1e-9*(1+l)*sc && c.Dot(A) >= 0, "Clamp direction", "Clamp(%v,%v)=%v", A, l, c)
	}
	m := g(a.LerpConst(b, l))
	d := A.Dist(B)
	if d <= l {
		t.Check(m.Dist(B) <= 1e-9*sc, "LerpConst arrives", "LerpConst(%v,%v,%v)=%v", A, B, l, m)
	} else {
		t.Check(math.Abs(m.Dist(A)-l) <= 1e-9*(sc+l) && math.Abs(m.Dist(A)+m.Dist(B)-d) <= 1e-9*(sc+l), "LerpConst moves", "LerpConst(%v,%v,%v)=%v", A, B, l, m)
	}
}

func c23Angle(t *pbt.T) {
	a := t.Angle()
	b := t.Angle()
	x := genNV(t)
	t.Logf("angles %v %v vector %v", a, b, x)
	t.NonTrivialIf(a != 0 && b != 0 && g(x).Len() > 0)
	f := cp.ForAngle(a)
	sc := 1 + g(x).Len()
	t.Check(near(f.X, math.Cos(a), 1e-12) && near(f.Y, math.Sin(a), 1e-12), "ForAngle", "ForAngle(%v)=%v", a, f)
	t.Check(math.Abs(math.Remainder(f.ToAngle()-a, 2*math.Pi)) < 1e-9, "ToAngle", "ToAngle(ForAngle(%v))=%v", a, f.ToAngle())
	r := g(x.Rotate(f))
	t.Check(r.Dist(g(x).Rot(a)) < 1e-9*sc, "Rotate", "Rotate(%v by %v)=%v", x, a, r)
	u := g(x.Rotate(f).Unrotate(f))
	t.Check(u.Dist(g(x)) < 1e-9*sc, "Unrotate", "Unrotate(Rotate(%v)) by %v =%v", x, a, u)
	u = g(x.Unrotate(f))
	t.Check(u.Dist(g(x).Rot(-a)) < 1e-9*sc, "Unrotate", "Unrotate(%v by %v)=%v", x, a, u)
	s := f.Rotate(cp.ForAngle(b))
	t.Check(math.Abs(math.Remainder(s.ToAngle()-a-b, 2*math.Pi)) < 1e-9, "Rotate adds angles", "%v+%v gives %v", a, b, s.ToAngle())
	if y := genNV(t); g(y).Len() > 1e-3 {
		t.Check(math.Abs(y.ToAngle()-math.Atan2(y.Y, y.X)) < 1e-12, "ToAngle", "ToAngle(%v)=%v", y, y.ToAngle())
	}
}

func c23Slerp(t *pbt.T) {
	a := t.Angle()
	om := t.Real(-3, 3)
	if t.P(1, 5) {
		om = t.Real(-2e-3, 2e-3)
	}
	same := t.P(1, 8)
	if same {
		om = 0
	}
	l := t.Log(0.01, 100)
	k := t.F(0, 1)
	x, y := cp.ForAngle(a).Mult(l), cp.ForAngle(a+om).Mult(l)
	t.Logf("x=%v y=%v t=%v", x, y, k)
	t.NonTrivialIf(om != 0 && k > 0 && k < 1)
	r := x.SLerp(y, k)
	want := g(cp.ForAngle(a + om*k).Mult(l))
	t.Check(g(r).Finite() && g(r).Dist(want) < 1e-5*l, "SLerp", "SLerp(%v,%v,%v)=%v want %v", x, y, k, r, want)
	// constant-angle slerp
	s := t.Real(0.0, 3)
	if t.P(1, 6) {
		s = 0
	}
	r = x.SlerpConst(y, s)
	turn := om
	if math.Abs(om) > s {
		turn = math.Copysign(s, om)
	}
	want = g(cp.ForAngle(a + turn).Mult(l))
	t.Check(g(r).Finite() && g(r).Dist(want) < 1e-5*l, "SlerpConst", "SlerpConst(%v,%v,%v)=%v want %v", x, y, s, r, want)
}

func c23Scalar(t *pbt.T) {
	x, a, b := genNum(t), genNum(t), genNum(t)
	lo, hi := math.Min(a, b), math.Max(a, b)
	t.Logf("x=%v lo=%v hi=%v", x, lo, hi)
	t.NonTrivialIf(x != a && a != b)
	want := math.Min(math.Max(x, lo), hi)
	t.Check(cp.Clamp(x, lo, hi) == want, "Clamp scalar", "Clamp(%v,%v,%v)=%v", x, lo, hi, cp.Clamp(x, lo, hi))
	t.Check(cp.Clamp01(x) == math.Min(math.Max(x, 0), 1), "Clamp01", "Clamp01(%v)=%v", x, cp.Clamp01(x))
	k := t.F(-1, 2)
	t.Check(near(cp.Lerp(a, b, k), a+(b-a)*k, 1e-9), "Lerp scalar", "Lerp(%v,%v,%v)=%v", a, b, k, cp.Lerp(a, b, k))
	d := math.Abs(genNum(t))
	got := cp.LerpConst(a, b, d)
	w := b
	if math.Abs(b-a) > d {
		w = a + math.Copysign(d, b-a)
	}
	t.Check(near(got, w, 1e-9), "LerpConst scalar", "LerpConst(%v,%v,%v)=%v want %v", a, b, d, got, w)
}

func genBB(t *pbt.T) cp.BB {
	x, y := genNum(t), genNum(t)
	w, h := math.Abs(genNum(t)), math.Abs(genNum(t))
	return cp.NewBB(x, y, x+w, y+h)
}

func nearbyBB(t *pbt.T, b cp.BB) cp.BB {
	if t.P(1, 3) {
		return genBB(t)
	}
	w, h := b.R-b.L, b.T-b.B
	xs := []float64{b.L - w, b.L, b.L + w/4, b.L + w/2, b.R, b.R + w}
	ys := []float64{b.B - h, b.B, b.B + h/4, b.B + h/2, b.T, b.T + h}
	x0, x1 := xs[t.Intn(6)], xs[t.Intn(6)]
	y0, y1 := ys[t.Intn(6)], ys[t.Intn(6)]
	return cp.NewBB(math.Min(x0, x1), math.Min(y0, y1), math.Max(x0, x1), math.Max(y0, y1))
}

func c23BB(t *pbt.T) {
	a := genBB(t)
	b := nearbyBB(t, a)
	p := cp.Vector{X: t.F(-2, 2)*(a.R-a.L) + a.L, Y: t.F(-2, 2)*(a.T-a.B) + a.B}
	if t.P(1, 3) {
		p = cp.Vector{X: []float64{a.L, a.R, (a.L + a.R) / 2}[t.Intn(3)], Y: []float64{a.B, a.T, (a.B + a.T) / 2}[t.Intn(3)]}
	}
	t.Logf("a=%+v b=%+v p=%v", a, b, p)
	t.NonTrivialIf(a.Area() > 0 && b.Area() > 0 && a != b)
	sc := 1 + math.Abs(a.L) + math.Abs(a.R) + math.Abs(a.B) + math.Abs(a.T) + math.Abs(b.L) + math.Abs(b.R) + math.Abs(b.B) + math.Abs(b.T)
	inter := !(a.L > b.R || b.L > a.R || a.B > b.T || b.B > a.T)
	t.Check(a.Intersects(b) == inter && b.Intersects(a) == inter, "Intersects", "%+v %+v: %v", a, b, a.Intersects(b))
	cont := a.L <= b.L && b.R <= a.R && a.B <= b.B && b.T <= a.T
	t.Check(a.Contains(b) == cont, "Contains", "%+v %+v: %v", a, b, a.Contains(b))
	in := a.L <= p.X && p.X <= a.R && a.B <= p.Y && p.Y <= a.T
	t.Check(a.ContainsVect(p) == in, "ContainsVect", "%+v %v: %v", a, p, a.ContainsVect(p))
	m := a.Merge(b)
	t.Check(m == cp.BB{L: math.Min(a.L, b.L), B: math.Min(a.B, b.B), R: math.Max(a.R, b.R), T: math.Max(a.T, b.T)}, "Merge", "%+v %+v: %+v", a, b, m)
	e := a.Expand(p)
	t.Check(e == cp.BB{L: math.Min(a.L, p.X), B: math.Min(a.B, p.Y), R: math.Max(a.R, p.X), T: math.Max(a.T, p.Y)}, "Expand", "%+v %v: %+v", a, p, e)
	t.Check(math.Abs(a.MergedArea(b)-m.Area()) <= 1e-9*sc*sc, "MergedArea", "%v vs %v", a.MergedArea(b), m.Area())
	t.Check(math.Abs(a.Area()-(a.R-a.L)*(a.T-a.B)) <= 1e-9*sc*sc, "Area", "%+v: %v", a, a.Area())
	c := a.Center()
	t.Check(g(c).Dist(P{(a.L + a.R) / 2, (a.B + a.T) / 2}) <= 1e-9*sc, "Center", "%+v: %v", a, c)
	q := a.ClampVect(&p)
	want := P{math.Min(math.Max(p.X, a.L), a.R), math.Min(math.Max(p.Y, a.B), a.T)}
	t.Check(g(q) == want, "ClampVect", "%+v %v: %v", a, p, q)
	o := a.Offset(p)
	t.Check(near(o.L, a.L+p.X, 1e-12) && near(o.R, a.R+p.X, 1e-12) && near(o.B, a.B+p.Y, 1e-12) && near(o.T, a.T+p.Y, 1e-12), "Offset", "%+v %v: %+v", a, p, o)
	w := math.Abs(genNum(t))
	h := math.Abs(genNum(t))
	x := cp.NewBBForExtents(p, w, h)
	t.Check(near(x.L, p.X-w, 1e-12) && near(x.R, p.X+w, 1e-12) && near(x.B, p.Y-h, 1e-12) && near(x.T, p.Y+h, 1e-12), "NewBBForExtents", "%v %v %v: %+v", p, w, h, x)
	t.Check(cp.NewBBForCircle(p, w) == cp.NewBBForExtents(p, w, w), "NewBBForCircle", "%v %v", p, w)
	pr := 2*math.Abs(a.Center().X-b.Center().X) + 2*math.Abs(a.Center().Y-b.Center().Y)
	t.Check(math.Abs(a.Proximity(b)-pr) <= 1e-9*sc, "Proximity", "%+v %+v: %v want %v", a, b, a.Proximity(b), pr)
}

func c23BBSegment(t *pbt.T) {
	a := genBB(t)
	w, h := a.R-a.L, a.T-a.B
	pt := func() cp.Vector {
		x := []float64{a.L - w, a.L, a.L + w/2, a.R, a.R + w, 0}[t.Intn(6)]
		y := []float64{a.B - h, a.B, a.B + h/2, a.T, a.T + h, 0}[t.Intn(6)]
		if t.Bool() {
			x = t.Real(a.L-w-1, a.R+w+1)
		}
		if t.Bool() {
			y = t.Real(a.B-h-1, a.T+h+1)
		}
		return cp.Vector{X: x, Y: y}
	}
	p, q := pt(), pt()
	t.Logf("bb=%+v p=%v q=%v", a, p, q)
	f := a.SegmentQuery(p, q)
	hit := f != cp.INFINITY
	t.Check(a.IntersectsSegment(p, q) == hit, "IntersectsSegment", "%v vs %v", a.IntersectsSegment(p, q), f)
	sc := 1 + math.Abs(a.L) + math.Abs(a.R) + math.Abs(a.B) + math.Abs(a.T) + g(p).Len() + g(q).Len()
	eps := 1e-9 * sc
	clip := func(grow float64) (float64, bool) {
		// Liang-Barsky
		t0, t1 := 0.0, 1.0
		d := g(q).Sub(g(p))
		gx, gy := grow, grow
		if d.X == 0 { // nothing to round: along a side or past it is plain
			gx = 0
		}
		if d.Y == 0 {
			gy = 0
		}
		for _, e := range [][2]float64{{-d.X, p.X - (a.L - gx)}, {d.X, (a.R + gx) - p.X}, {-d.Y, p.Y - (a.B - gy)}, {d.Y, (a.T + gy) - p.Y}} {
			if e[0] == 0 {
				if e[1] < 0 {
					return 0, false
				}
				continue
			}
			r := e[1] / e[0]
			if e[0] < 0 {
				t0 = math.Max(t0, r)
			} else {
				t1 = math.Min(t1, r)
			}
		}
		return t0, t0 <= t1
	}
	_, big := clip(eps)
	_, small := clip(-eps)
	t.NonTrivialIf(big && p != q && !a.ContainsVect(p))
	t.Check(big || !hit, "SegmentQuery false hit", "bb %+v segment %v-%v: %v", a, p, q, f)
	t.Check(!small || hit, "SegmentQuery miss", "bb %+v segment %v-%v: missed", a, p, q)
	if hit {
		t.Check(f >= 0 && f <= 1+1e-12, "SegmentQuery range", "%v", f)
		t0, _ := clip(eps)
		at := g(p).Lerp(g(q), f)
		t.Check(geo.Box{L: a.L - eps, B: a.B - eps, R: a.R + eps, T: a.T + eps}.Intersects(geo.Box{L: at.X, R: at.X, B: at.Y, T: at.Y}), "SegmentQuery point", "point %v at %v is outside %+v", at, f, a)
		// between the entries into the slightly grown and slightly shrunk box
		t.Check(f >= t0-1e-9, "SegmentQuery early", "bb %+v %v-%v: %v, first %v", a, p, q, f, t0)
		if t2, ok := clip(-eps); ok {
			t.Check(f <= t2+1e-9, "SegmentQuery late", "bb %+v %v-%v: %v, first %v", a, p, q, f, t2)
		}
	}
}

func c23Wrap(t *pbt.T) {
	a := genBB(t)
	w, h := a.R-a.L, a.T-a.B
	if w < 1e-3 || h < 1e-3 {
		t.Discard("thin box")
	}
	p := cp.Vector{X: a.L + t.F(-6, 6)*w, Y: a.B + t.F(-6, 6)*h}
	t.Logf("bb=%+v p=%v", a, p)
	t.NonTrivialIf(!a.ContainsVect(p))
	r := a.WrapVect(p)
	sc := 1 + math.Abs(a.L) + math.Abs(a.R) + math.Abs(a.B) + math.Abs(a.T) + g(p).Len()
	eps := 1e-9 * sc
	t.Check(r.X >= a.L-eps && r.X <= a.R+eps && r.Y >= a.B-eps && r.Y <= a.T+eps, "WrapVect inside", "%+v %v: %v", a, p, r)
	kx, ky := (p.X-r.X)/w, (p.Y-r.Y)/h
	t.Check(math.Abs(kx-math.Round(kx))*w <= 1e-6*sc && math.Abs(ky-math.Round(ky))*h <= 1e-6*sc, "WrapVect period", "%+v %v: %v", a, p, r)
}

func genTransform(t *pbt.T) cp.Transform {
	x := cp.NewTransformIdentity()
	t.List(1, 3, func(i int) {
		switch t.Intn(5) {
		case 0:
			x = x.Mult(cp.NewTransformTranslate(cp.Vector{X: t.F(-10, 10), Y: t.F(-10, 10)}))
		case 1:
			sx, sy := t.Log(0.1, 10), t.Log(0.1, 10)
			if t.Bool() {
				sx = -sx
			}
			x = x.Mult(cp.NewTransformScale(sx, sy))
		case 2:
			x = x.Mult(cp.NewTransformRotate(t.Angle()))
		case 3:
			x = x.Mult(cp.NewTransformRigid(cp.Vector{X: t.F(-10, 10), Y: t.F(-10, 10)}, t.Angle()))
		case 4:
			a, b, c := t.F(-3, 3), t.F(-3, 3), t.F(-3, 3)
			d := t.F(-3, 3)
			if math.Abs(a*d-b*c) < 0.1 {
				a, b, c, d = 1, 0.5, 0, 2
			}
			x = x.Mult(cp.NewTransformTranspose(a, c, t.F(-10, 10), b, d, t.F(-10, 10)))
		}
	})
	return x
}

func c23Transform(t *pbt.T) {
	x, y := genTransform(t), genTransform(t)
	p := cp.Vector{X: t.F(-20, 20), Y: t.F(-20, 20)}
	t.Logf("x=%v y=%v p=%v", x, y, p)
	t.NonTrivialIf(x != y && x != cp.NewTransformIdentity())
	tol := 1e-8
	eq := func(name string, a, b cp.Vector) {
		sc := 1 + g(a).Len() + g(b).Len()
		t.Check(g(a).Finite() && g(a).Dist(g(b)) <= tol*sc*10, name, "%s: %v vs %v (x=%v y=%v p=%v)", name, a, b, x, y, p)
	}
	eq("identity", cp.NewTransformIdentity().Point(p), p)
	eq("Mult composes", x.Mult(y).Point(p), x.Point(y.Point(p)))
	eq("Inverse", x.Inverse().Point(x.Point(p)), p)
	eq("Inverse right", x.Point(x.Inverse().Point(p)), p)
	eq("Vect", x.Vect(p), x.Point(p).Sub(x.Point(cp.Vector{})))
	eq("Wrap", x.Wrap(y).Point(p), x.Inverse().Point(y.Point(x.Point(p))))
	q := cp.Vector{X: t.F(-20, 20), Y: t.F(-20, 20)}
	k := t.F(-1, 2)
	eq("affine", x.Point(p.Lerp(q, k)), x.Point(p).Lerp(x.Point(q), k))
	// boxes: tight around the transformed corners
	bb := cp.NewBB(math.Min(p.X, q.X), math.Min(p.Y, q.Y), math.Max(p.X, q.X), math.Max(p.Y, q.Y))
	r := x.BB(bb)
	c := x.Point(cp.Vector{X: bb.L, Y: bb.B})
	w := cp.NewBB(c.X, c.Y, c.X, c.Y).Expand(x.Point(cp.Vector{X: bb.R, Y: bb.B})).Expand(x.Point(cp.Vector{X: bb.R, Y: bb.T})).Expand(x.Point(cp.Vector{X: bb.L, Y: bb.T}))
	sc := 1 + math.Abs(w.L) + math.Abs(w.R) + math.Abs(w.T) + math.Abs(w.B)
	t.Check(math.Abs(r.L-w.L) < 1e-8*sc && math.Abs(r.R-w.R) < 1e-8*sc && math.Abs(r.B-w.B) < 1e-8*sc && math.Abs(r.T-w.T) < 1e-8*sc, "Transform.BB", "%v of %+v: %+v want %+v", x, bb, r, w)
}

func c23TransformSpecial(t *pbt.T) {
	p := cp.Vector{X: t.F(-20, 20), Y: t.F(-20, 20)}.Mult(wide(t))
	o := cp.Vector{X: t.F(-20, 20), Y: t.F(-20, 20)}.Mult(wide(t))
	a := t.Angle()
	t.Logf("p=%v o=%v a=%v", p, o, a)
	t.NonTrivialIf(a != 0 && g(p).Len() > 0 && g(o).Len() > 0)
	eq := func(name string, got cp.Vector, want P) {
		t.Check(nearP(g(got), want, 1e-9), name, "%s: got %v want %v (p=%v o=%v a=%v)", name, got, want, p, o, a)
	}
	P0 := g(p)
	eq("Translate", cp.NewTransformTranslate(o).Point(p), P0.Add(g(o)))
	eq("Scale", cp.NewTransformScale(o.X, o.Y).Point(p), P{P0.X * o.X, P0.Y * o.Y})
	eq("RotateT", cp.NewTransformRotate(a).Point(p), P0.Rot(a))
	rig := cp.NewTransformRigid(o, a)
	eq("Rigid", rig.Point(p), P0.Rot(a).Add(g(o)))
	eq("RigidInverse", cp.NewTransformRigidInverse(rig).Point(p), P0.Sub(g(o)).Rot(-a))
	m := [6]float64{t.F(-3, 3), t.F(-3, 3), t.F(-3, 3), t.F(-3, 3), t.F(-3, 3), t.F(-3, 3)}
	want := P{m[0]*P0.X + m[1]*P0.Y + m[2], m[3]*P0.X + m[4]*P0.Y + m[5]}
	eq("Transpose", cp.NewTransformTranspose(m[0], m[1], m[2], m[3], m[4], m[5]).Point(p), want)
	eq("NewTransform", cp.NewTransform(m[0], m[1], m[2], m[3], m[4], m[5]).Point(p), want)
	if P0.Dist(g(o)) > 1e-3 {
		b := cp.Transform{}.BoneScale(p, o)
		eq("BoneScale start", b.Point(cp.Vector{}), P0)
		eq("BoneScale end", b.Point(cp.Vector{X: 1}), g(o))
		eq("BoneScale side", b.Vect(cp.Vector{Y: 1}), g(o).Sub(P0).Left())
	}
	ax := cp.ForAngle(a)
	s := t.F(-3, 3)
	as := cp.Transform{}.AxialScale(ax, o, s)
	rel := P0.Sub(g(o))
	al := rel.Dot(g(ax))
	eq("AxialScale", as.Point(p), P0.Add(g(ax).Mul(al*(s-1))))
	w, h := t.Log(0.1, 100), t.Log(0.1, 100)
	bb := cp.NewBB(o.X, o.Y, o.X+w, o.Y+h)
	or := cp.Transform{}.Ortho(bb)
	u := P{(p.X - bb.L) / w, (p.Y - bb.B) / h}
	eq("Ortho", or.Point(p), P{2*u.X - 1, 2*u.Y - 1})
}

func c23Closest(t *pbt.T) {
	u := 1.0
	if t.P(1, 4) {
		u = t.Log(1e-3, 1e3)
	}
	a := cp.Vector{X: t.F(-10, 10) * u, Y: t.F(-10, 10) * u}
	b := cp.Vector{X: t.F(-10, 10) * u, Y: t.F(-10, 10) * u}
	p := cp.Vector{X: t.F(-10, 10) * u, Y: t.F(-10, 10) * u}
	if g(a).Dist(g(b)) < 1e-3*u {
		t.Discard("degenerate segment")
	}
	t.Logf("a=%v b=%v p=%v", a, b, p)
	t.NonTrivial()
	want := geo.ClosestOnSeg(g(p), g(a), g(b))
	t.Check(nearP(g(p.ClosestPointOnSegment(a, b)), want, 1e-9), "ClosestPointOnSegment", "p=%v a=%v b=%v: %v want %v", p, a, b, p.ClosestPointOnSegment(a, b), want)
	ra, rb := a.Sub(p), b.Sub(p)
	k := ra.ClosestT(rb)
	t.Check(k >= -1-1e-12 && k <= 1+1e-12, "ClosestT range", "%v", k)
	q := g(ra.LerpT(rb, k))
	w := want.Sub(g(p))
	t.Check(q.Dist(w) < 1e-8*(1+w.Len()), "ClosestT", "closest of %v-%v to origin: %v want %v", ra, rb, q, w)
	d := ra.ClosestDist(rb)
	t.Check(math.Abs(d-w.Dot(w)) < 1e-7*(1+w.Dot(w)), "ClosestDist", "%v want %v", d, w.Dot(w))
	cr := g(b).Sub(g(a)).Cross(g(p).Sub(g(a)))
	if math.Abs(cr) > 1e-9*u*u {
		t.Check(a.PointGreater(b, p) == (cr > 0), "PointGreater", "a=%v b=%v p=%v: %v", a, b, p, a.PointGreater(b, p))
	}
	n := cp.ForAngle(t.Angle())
	m := math.Max(g(a).Dot(g(n)), g(b).Dot(g(n)))
	if dp := g(p).Dot(g(n)); math.Abs(dp-m) > 1e-9*math.Max(u, 1e-3) {
		t.Check(a.CheckAxis(b, p, n) == (dp <= m), "CheckAxis", "a=%v b=%v p=%v n=%v", a, b, p, n)
	}
}
