package props

import (
	"fmt"
	"math"

	"cpverif/geo"
	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C04", Quick: 600000, Thorough: 40000000,
		Rule: "two random convex shapes in a relative pose biased to contact (touching, shallow, deep, aligned, concentric, corner to corner); in the warm check the same pair is moved through 2..8 poses inside a space so that cached features are reused; in the exact check a circle's centre lies exactly on the line of a segment or a side of a box. Non-trivial: the bounding boxes overlap and neither shape's answer is a matter of rounding",
		Subs: []Sub{{"pair", 16, c04Pair}, {"warm", 4, c04Warm}, {"exact", 1, c04Exact}},
		Pins: []Pin{{"degenerate-poses", c04Degenerate}, {"many-corners", c04ManyCorners}},
	})
}

// touch is what exact geometry says about two shapes.
type touch struct {
	sd   float64 // signed separation of the cores
	gap  float64
	sure bool
	hit  bool
}

func exactTouch(a, b geo.Shape, eps float64) touch {
	sd := geo.SignedSep(a.Core, b.Core)
	gap := sd - a.R - b.R
	x := touch{sd: sd, gap: gap, hit: gap <= 0, sure: math.Abs(gap) > eps}
	return x
}

type contactPt struct {
	a, b P
	dist float64
}

// checkContacts validates normal and points, as seen from a to b.
func checkContacts(t *pbt.T, what string, a, b geo.Shape, n P, pts []contactPt, scale float64) {
	tol := 1e-7 * scale
	x := exactTouch(a, b, tol)
	if !x.sure {
		t.Label("within rounding")
		return
	}
	t.Check((len(pts) > 0) == x.hit, "contact-presence", "%s: %d contacts, but the gap is %v (a=%v b=%v)", what, len(pts), x.gap, a, b)
	if len(pts) == 0 {
		t.Label("apart")
		return
	}
	t.Check(len(pts) <= 2, "contact-count", "%s: %d contacts", what, len(pts))
	t.Check(n.Finite() && math.Abs(n.Len()-1) <= 1e-6, "contact-normal", "%s: normal %v is not a unit vector (a=%v b=%v)", what, n, a, b)
	along := geo.SepAlong(a.Core, b.Core, n)
	if x.sd < 0 && len(a.Core)+len(b.Core) > 28 {
		// the search of the overlap gives up after 30 steps, each of which takes in one corner of the difference
		t.Label("approximate")
		rough := 0.08 * (spread(a.Core) + spread(b.Core))
		t.Check(math.Abs(along-x.sd) <= rough, "contact-normal", "%s: along normal %v the separation is %v, but the least is %v (a=%v b=%v)", what, n, along, x.sd, a, b)
		deep := math.Inf(1)
		for i, p := range pts {
			t.Check(p.a.Finite() && p.b.Finite(), "contact-point", "%s: contact %d is %v", what, i, p)
			t.Check(a.Signed(p.a) <= rough, "contact-point-a", "%s: contact %d: %v is %v outside the first shape %v (normal %v)", what, i, p.a, a.Signed(p.a), a, n)
			t.Check(b.Signed(p.b) <= rough, "contact-point-b", "%s: contact %d: %v is %v outside the second shape %v (normal %v)", what, i, p.b, b.Signed(p.b), b, n)
			deep = math.Min(deep, p.dist)
		}
		t.Check(math.Abs(deep-x.gap) <= rough, "contact-depth", "%s: deepest contact %v, penetration %v (a=%v b=%v n=%v)", what, deep, x.gap, a, b, n)
		t.NonTrivial()
		return
	}
	// a circle's centre within rounding of a segment or circle core leaves the normal open
	open := (len(a.Core) == 1 || len(b.Core) == 1) && len(a.Core)+len(b.Core) <= 3 && math.Abs(x.sd) <= 1e-9*scale
	if what == exactly { // coordinates that leave no room for rounding
		open = len(a.Core)+len(b.Core) < 3
	}
	t.LabelIf(open, "normal open")
	t.Check(open || math.Abs(along-x.sd) <= 20*tol, "contact-normal", "%s: along normal %v the separation is %v, but the least is %v (a=%v b=%v)", what, n, along, x.sd, a, b)
	deep := math.Inf(1)
	for i, p := range pts {
		t.Check(p.a.Finite() && p.b.Finite(), "contact-point", "%s: contact %d is %v", what, i, p)
		t.Check(a.Signed(p.a) <= 20*tol, "contact-point-a", "%s: contact %d: %v is %v outside the first shape %v (normal %v)", what, i, p.a, a.Signed(p.a), a, n)
		t.Check(b.Signed(p.b) <= 20*tol, "contact-point-b", "%s: contact %d: %v is %v outside the second shape %v (normal %v)", what, i, p.b, b.Signed(p.b), b, n)
		d := p.b.Sub(p.a).Dot(n)
		t.Check(math.Abs(p.dist-d) <= 20*tol, "contact-distance", "%s: contact %d: distance %v, but the points are %v apart along the normal", what, i, p.dist, d)
		t.Check(p.dist <= 20*tol, "contact-distance", "%s: contact %d has positive distance %v", what, i, p.dist)
		// the points face each other along the normal
		t.Check(math.Abs(p.b.Sub(p.a).Cross(n)) <= 1e-6*scale || len(a.Core) > 1 || len(b.Core) > 1, "contact-offset", "%s: contact %d: points %v and %v are not along the normal %v", what, i, p.a, p.b, n)
		deep = math.Min(deep, p.dist)
	}
	t.Check(math.Abs(deep-x.gap) <= 50*tol, "contact-depth", "%s: deepest contact %v, penetration %v (a=%v b=%v n=%v)", what, deep, x.gap, a, b, n)
	t.NonTrivial()
	t.LabelIf(len(pts) == 2, "two contacts")
	t.LabelIf(x.sd < 0, "cores overlap")
}

func setPts(s cp.ContactPointSet) (P, []contactPt) {
	var out []contactPt
	for i := 0; i < s.Count; i++ {
		out = append(out, contactPt{g(s.Points[i].PointA), g(s.Points[i].PointB), s.Points[i].Distance})
	}
	return g(s.Normal), out
}

// posePair moves b so that it is likely to touch a.
func posePair(t *pbt.T, a, b *placed) {
	size := math.Max(a.size, b.size)
	if t.P(1, 3) { // aligned
		a.ang = float64(t.Intn(4)) * math.Pi / 2
		b.ang = a.ang + float64(t.Intn(4))*math.Pi/2
	} else {
		a.ang, b.ang = t.Angle(), t.Angle()
	}
	a.pos = P{}
	if t.P(1, 3) {
		a.pos = genP(t, 5*size)
	}
	b.pos = a.pos
	a.place()
	b.place()
	switch t.Weighted(4, 3, 1, 2) {
	case 0: // slide along a direction to a chosen depth
		dir := P{1, 0}.Rot(t.Angle())
		// support distance along dir
		gap := geo.SepAlong(a.geo.Core, b.geo.Core, dir) - a.d.R - b.d.R
		depth := []float64{0.02, 0.2, 0.7, -0.05, 1e-3}[t.Intn(5)] * size
		b.pos = b.pos.Add(dir.Mul(-gap - depth))
		if t.Bool() {
			b.pos = b.pos.Add(dir.Left().Mul(t.F(-1, 1) * size))
		}
	case 1:
		b.pos = b.pos.Add(genP(t, 2*size))
	case 2: // concentric or corner on corner
		if t.Bool() {
			b.pos = b.pos.Add(a.geo.Core[t.Intn(len(a.geo.Core))].Sub(b.geo.Core[t.Intn(len(b.geo.Core))]))
		}
	case 3:
		b.pos = b.pos.Add(genP(t, 0.5*size))
	}
	b.place()
}

func c04Pair(t *pbt.T) {
	size := genSize(t)
	a := placed{d: genDefMany(t, size), size: size}
	sb := size
	if t.P(1, 3) {
		sb = size * t.Log(0.1, 10)
	}
	b := placed{d: genDefMany(t, sb), size: sb}
	for _, p := range []*placed{&a, &b} {
		p.b = cp.NewBody(1, 1)
		p.s = p.d.Make(p.b)
	}
	posePair(t, &a, &b)
	t.Logf("a: %v at %v angle %v", a.d, a.pos, a.ang)
	t.Logf("b: %v at %v angle %v", b.d, b.pos, b.ang)
	scale := math.Min(1, size) + math.Max(size, sb) + a.pos.Len() + b.pos.Len()
	n, pts := setPts(cp.ShapesCollide(a.s, b.s))
	t.Label("pair:" + kind2(a.d, b.d))
	checkContacts(t, "ShapesCollide(a,b)", a.geo, b.geo, n, pts, scale)
	n2, pts2 := setPts(cp.ShapesCollide(b.s, a.s))
	checkContacts(t, "ShapesCollide(b,a)", b.geo, a.geo, n2, pts2, scale)
	if a.s.Order() != b.s.Order() {
		// the library sorts by kind, so the mirrored answer is the same computation
		t.Check(len(pts) == len(pts2), "contact-mirror", "%d contacts one way, %d the other", len(pts), len(pts2))
		for i := range pts {
			t.Check(nearP(pts[i].a, pts2[i].b, 1e-9) && nearP(pts[i].b, pts2[i].a, 1e-9) && near(pts[i].dist, pts2[i].dist, 1e-9), "contact-mirror", "contact %d: %v one way, %v the other", i, pts[i], pts2[i])
		}
		t.Check(len(pts) == 0 || nearP(n, n2.Mul(-1), 1e-9), "contact-mirror", "normal %v one way, %v the other", n, n2)
	}
}

func kind2(a, b Def) string {
	k := func(d Def) string {
		if d.Kind == "box" {
			return "poly"
		}
		return d.Kind
	}
	x, y := k(a), k(b)
	if x > y {
		x, y = y, x
	}
	return x + "-" + y
}

// c04Warm drives one pair through several poses in a space, so the collision starts from cached features.
func c04Warm(t *pbt.T) {
	size := genSize(t)
	a := placed{d: genDefMany(t, size), size: size}
	b := placed{d: genDefMany(t, size), size: size}
	space := cp.NewSpace()
	for _, p := range []*placed{&a, &b} {
		p.b = cp.NewBody(1, 1)
		p.s = p.d.Make(p.b)
		space.AddBody(p.b)
		space.AddShape(p.s)
	}
	a.s.SetCollisionType(1)
	b.s.SetCollisionType(2)
	h := space.NewCollisionHandler(1, 2)
	var sets []cp.ContactPointSet
	var normal, first cp.Vector
	var depth float64
	h.PreSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool {
		sa, sb := arb.Shapes()
		t.Check(sa == a.s && sb == b.s, "handler-order", "shapes out of order")
		set := arb.ContactPointSet()
		sets = append(sets, set)
		normal = arb.Normal()
		depth = set.Points[0].Distance
		first = set.Points[0].PointA
		return false
	}
	t.List(2, 8, func(i int) {
		if i == 0 || t.P(1, 3) {
			posePair(t, &a, &b)
		} else { // a small move, or a mutation
			b.pos = b.pos.Add(genP(t, 0.3*size))
			b.ang += t.F(-0.5, 0.5)
			if t.P(1, 4) {
				b.d = mutateShape(t, b.s, b.d, 0.5*size)
			}
			b.place()
		}
		t.Logf("a: %v at %v angle %v", a.d, a.pos, a.ang)
		t.Logf("b: %v at %v angle %v", b.d, b.pos, b.ang)
		for _, p := range []*placed{&a, &b} {
			p.b.SetVelocity(0, 0)
			p.b.SetAngularVelocity(0)
		}
		sets = nil
		space.Step(0.01)
		scale := math.Min(1, a.size) + math.Max(a.size, b.size) + a.pos.Len() + b.pos.Len() + spread(a.geo.Core) + spread(b.geo.Core)
		t.Check(len(sets) <= 1, "events", "%d pre-solves in a step", len(sets))
		if len(sets) == 0 {
			checkContacts(t, "in a step", a.geo, b.geo, P{}, nil, scale)
			return
		}
		n, pts := setPts(sets[0])
		t.Check(nearV(normal, sets[0].Normal, 1e-12), "normal", "Normal()=%v, set has %v", normal, sets[0].Normal)
		_ = first
		_ = depth
		checkContacts(t, "in a step", a.geo, b.geo, n, pts, scale)
	})
}

// c04Degenerate holds poses that used to go wrong: coinciding centres and
// corners, parts in line with each other.
func c04Degenerate(t *pbt.T) {
	box := func(w, h, r float64) Def {
		return Def{Kind: "box", W: w, H: h, R: r, Pts: []P{{-w / 2, -h / 2}, {w / 2, -h / 2}, {w / 2, h / 2}, {-w / 2, h / 2}}}
	}
	seg := func(ax, ay, bx, by, r float64) Def {
		return Def{Kind: "segment", R: r, Pts: []P{{ax, ay}, {bx, by}}}
	}
	poly := func(r float64, pts ...P) Def { return Def{Kind: "poly", R: r, Pts: pts} }
	circ := func(r float64) Def { return Def{Kind: "circle", R: r, Pts: []P{{}}} }
	for _, c := range []struct {
		a, b       Def
		pa, pb     P
		anga, angb float64
	}{
		{box(1, 1, 0), box(1, 1, 0), P{}, P{}, 0, 0},
		{box(0.5, 0.5, 0), box(0.5, 0.5, 0), P{}, P{}, 1.5707963267948966, 0},
		{seg(-1, 0, 1, 0, 0.1), box(1, 1, 0), P{}, P{}, 0, 0},
		{circ(1), box(2, 2, 0.5), P{}, P{1.7, 0}, 0, 0},
		{circ(1), box(2, 2, 0.5), P{1.7, 0.2}, P{}, 0, 0},
		{seg(-0.2, 0, 0.2, 0, 0.01), seg(0, -0.2, 0, 0, 0), P{0, 1}, P{0.2, 1}, 0, 1.5707963267948966},
		{seg(0, 0, 0, -0.2, 0.01), poly(0.01, P{-1, -1}, P{1, -1}, P{0, 0}), P{}, P{1, 1}, 0, 0},
		{seg(0.05196827136883286, 0, -0.05196827136883286, 0, 0.013738237405121168), box(0.7699100267925664, 1.5398200535851327, 0), P{}, P{0.8533600183642547, 0.3089514175157144}, 0.7853981633974483, 2.356194490192345},
		{poly(0.2240038869744408, P{-4, -3}, P{-2, -4}, P{-1, -4}, P{1, -3}), box(5.439395385174593, 5.2213013289227215, 0.2240038869744408), P{}, P{-0.7196976925872955, 6.610650664461361}, 3.141592653589793, 6.283185307179586},
		{seg(-2, 0, 0, 0, 0.5), seg(0.3, 0, 2, 0, 0.5), P{}, P{}, 0, 0},
		{seg(-2, 0, 0, 0, 0.5), seg(1.3, 0, 2, 0, 0.5), P{}, P{}, 0, 0},
		{seg(-2, 0, 0, 0, 0.5), box(2, 2, 0), P{}, P{1.2, 1}, 0, 0},
		{seg(-2, 0, 0, 0, 0.1), box(2, 2, 0), P{}, P{1.2, 1}, 0, 0},
		{box(2, 2, 0.2), box(2, 2, 0), P{}, P{2, 2}, 0, 0},
		{box(2, 2, 0.2), box(2, 2, 0), P{}, P{2, 0}, 0, 0},
	} {
		a := placed{d: c.a, size: 1, pos: c.pa, ang: c.anga}
		b := placed{d: c.b, size: 1, pos: c.pb, ang: c.angb}
		for _, p := range []*placed{&a, &b} {
			p.b = cp.NewBody(1, 1)
			p.s = p.d.Make(p.b)
			p.place()
		}
		n, pts := setPts(cp.ShapesCollide(a.s, b.s))
		checkContacts(t, fmt.Sprintf("%v at %v/%v and %v at %v/%v", c.a, c.pa, c.anga, c.b, c.pb, c.angb), a.geo, b.geo, n, pts, 10)
		n, pts = setPts(cp.ShapesCollide(b.s, a.s))
		checkContacts(t, fmt.Sprintf("%v at %v/%v and %v at %v/%v", c.b, c.pb, c.angb, c.a, c.pa, c.anga), b.geo, a.geo, n, pts, 10)
	}
}

const exactly = "exactly"

// c04Exact puts a circle's centre exactly on a segment.
func c04Exact(t *pbt.T) {
	dir := P{float64(t.Int(-4, 4)), float64(t.Int(-4, 4))}
	if dir == (P{}) {
		dir = P{1, 0}
	}
	o := P{float64(t.Int(-8, 8)), float64(t.Int(-8, 8))}
	a, b := o, o.Add(dir.Mul(16))
	c := o.Add(dir.Mul(float64(t.Int(0, 16))))
	ds := Def{Kind: "segment", Pts: []P{a, b}, R: float64(t.Int(0, 3))}
	dc := Def{Kind: "circle", Pts: []P{{}}, R: float64(t.Int(1, 4))}
	x := placed{d: ds, size: 16}
	y := placed{d: dc, size: 4, pos: c}
	if t.Bool() {
		y = placed{d: Def{Kind: "circle", Pts: []P{c}, R: dc.R}, size: 4}
	}
	for _, p := range []*placed{&x, &y} {
		p.b = cp.NewBody(1, 1)
		p.s = p.d.Make(p.b)
		p.place()
	}
	t.Logf("%v and %v at %v", x.d, y.d, y.pos)
	n, pts := setPts(cp.ShapesCollide(x.s, y.s))
	checkContacts(t, exactly, x.geo, y.geo, n, pts, 100)
	n, pts = setPts(cp.ShapesCollide(y.s, x.s))
	checkContacts(t, exactly, y.geo, x.geo, n, pts, 100)
}

// c04ManyCorners overlaps polygons of so many corners that their numbers do not fit into eight bits.
func c04ManyCorners(t *pbt.T) {
	for n := 257; n <= 300; n++ {
		d := Def{Kind: "poly"}
		for i := 0; i < n; i++ {
			an := 2 * math.Pi * float64(i) / float64(n)
			d.Pts = append(d.Pts, P{math.Cos(an), math.Sin(an)})
		}
		a := placed{d: d, size: 1}
		b := placed{d: Def{Kind: "circle", R: 1, Pts: []P{{}}}, size: 1}
		for _, p := range []*placed{&a, &b} {
			p.b = cp.NewBody(1, 1)
			p.s = p.d.Make(p.b)
			p.place()
		}
		m, pts := setPts(cp.ShapesCollide(a.s, b.s))
		checkContacts(t, fmt.Sprintf("%d corners", n), a.geo, b.geo, m, pts, 10)
	}
}
