package props

import (
	"fmt"
	"math"

	"cpverif/geo"
	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C06", Quick: 45000, Thorough: 2000000,
		Rule: "histories of edits and steps over up to 14 bodies and 24 shapes on both indexes, with queries of all kinds between the edits, inside other queries' callbacks and inside collision callbacks; each answer is compared with an exact test of every shape; non-trivial: at least three queries that find something",
		Subs: []Sub{{"history", 4, c06History}, {"crowd", 1, c06Crowd}, {"rays", 2, c06Rays}},
		Pins: []Pin{
			{"shape-query-result", pinShapeQueryResult},
			{"bodiless-segment", pinBodilessSegment},
			{"fat-ray-beside-box", pinFatRay},
			{"hash-ray-from-cell-border", pinHashRay},
			{"hash-nested-queries", pinHashNested},
		},
	})
}

// Q is a generated query, so that queries made inside callbacks do not draw.
type Q struct {
	kind   int // 0 box 1 nearest 2 segments 3 first 4 shape
	filter cp.ShapeFilter
	box    geo.Box
	p      P
	max    float64
	a, b   P
	r      float64
	d      Def
	own    *WShape // query shape that is in the space
	qs     *cp.Shape
	qg     geo.Shape
	sensor bool
	nested []*Q
}

func (q *Q) String() string {
	switch q.kind {
	case 0:
		return fmt.Sprintf("BBQuery(%v %v)", q.box, q.filter)
	case 1:
		return fmt.Sprintf("PointQueryNearest(%v, %v, %v)", q.p, q.max, q.filter)
	case 2:
		return fmt.Sprintf("SegmentQuery(%v-%v r=%v %v)", q.a, q.b, q.r, q.filter)
	case 3:
		return fmt.Sprintf("SegmentQueryFirst(%v-%v r=%v %v)", q.a, q.b, q.r, q.filter)
	}
	return fmt.Sprintf("ShapeQuery(%v at %v own=%v sensor=%v %v)", q.d, q.qg.Core, q.own, q.sensor, q.filter)
}

// genQuery makes a query aimed at the shapes of the world.
func (w *World) genQuery(depth int) *Q {
	t := w.t
	q := &Q{kind: t.Intn(5), filter: cp.SHAPE_FILTER_ALL}
	if t.P(1, 3) {
		q.filter = genFilter(t)
	}
	target := w.pickShape(func(s *WShape) bool { return s.in })
	tg := geo.Shape{Core: []P{{}}, R: w.u}
	size := 2.0 * w.u
	if target != nil {
		tg = target.eff
		size = spread(tg.Core) + tg.R
	}
	switch q.kind {
	case 0:
		switch t.Intn(4) {
		case 0: // a point
			p := genNear(t, tg, size)
			q.box = geo.Box{L: p.X, R: p.X, B: p.Y, T: p.Y}
		case 1: // just about the shape's own box
			bb := tg.Bounds()
			d := []float64{0, 0.1, -0.1, 1}[t.Intn(4)] * w.u
			q.box = geo.Box{L: bb.R + d, R: bb.R + d + w.u, B: bb.B, T: bb.T}
			if t.Bool() {
				q.box = geo.Box{L: bb.L - 2*w.u, R: bb.L - d, B: bb.B - w.u, T: bb.B + t.F(0, 1)*w.u}
			}
		default:
			p := genP(t, 1.3*w.cfg.Size)
			q.box = geo.Box{L: p.X, R: p.X + t.F(0, w.cfg.Size), B: p.Y, T: p.Y + t.F(0, w.cfg.Size)}
		}
	case 1:
		q.p = genNear(t, tg, size)
		q.max = []float64{0, t.F(-2, 2), t.Log(0.01, 50), 20}[t.Intn(4)] * w.u
		if !w.hash && t.P(1, 6) {
			q.max = math.Inf(1)
		}
	case 2, 3:
		q.a, q.b, q.r = genRay(t, tg, size)
		if t.P(1, 3) { // across the scene
			q.a, q.b = genP(t, 2*w.cfg.Size), genP(t, 2*w.cfg.Size)
		}
		if t.P(1, 8) { // starts on whole numbers: borders of cells
			q.a = P{math.Round(q.a.X), math.Round(q.a.Y)}
		}
		if q.a.Dist(q.b) < 1e-3*w.u {
			q.b = q.a.Add(P{3, 1}.Mul(w.u))
		}
	case 4:
		q.sensor = t.P(1, 5)
		if t.P(1, 4) {
			q.own = w.pickShape(func(s *WShape) bool { return s.in && sameGeo(s.eff, s.place()) })
		}
		if q.own != nil {
			q.d, q.qs, q.qg, q.filter, q.sensor = q.own.d, q.own.s, q.own.eff, q.own.filter, q.own.sensor
			break
		}
		q.d = genDef(t, t.Log(0.3, 6)*w.u)
		b := cp.NewBody(1, 1)
		p := genNear(t, tg, size)
		a := t.Angle()
		b.SetPosition(v(p))
		b.SetAngle(a)
		q.qs = q.d.Make(b)
		q.qs.SetFilter(q.filter)
		q.qs.SetSensor(q.sensor)
		q.qg = q.d.At(p, a)
		if !q.sensor && t.P(1, 6) { // a probe without a body, placed by hand
			q.qs = q.d.Make(nil)
			q.qs.Filter = q.filter
			q.qs.Update(cp.NewTransformRigid(v(p), a))
			t.Label("probe without a body")
		}
	}
	if depth > 0 && t.P(1, 3) {
		t.List(1, 2, func(int) { q.nested = append(q.nested, w.genQuery(depth-1)) })
	}
	return q
}

func sameGeo(a, b geo.Shape) bool {
	for i := range a.Core {
		if a.Core[i].Dist(b.Core[i]) > 1e-12 {
			return false
		}
	}
	return true
}

// ask runs one query and checks its answer against every shape.
func (w *World) ask(q *Q, effOf func(*WShape) geo.Shape) (found int) {
	t := w.t
	tol := 1e-7 * (w.u + 4*w.cfg.Size)
	what := q.String()
	runNested := func() {
		for _, n := range q.nested {
			w.ask(n, effOf)
		}
	}
	admitted := func(s *WShape) bool { return s.in && !rejects(s.filter, q.filter) }
	count := make([]int, len(w.shapes))
	see := func(s *cp.Shape) *WShape {
		ws, ok := s.UserData.(*WShape)
		t.Check(ok && ws.s == s, "query-stranger", "%s reported a shape that is not in the space", what)
		count[ws.id]++
		t.Check(count[ws.id] == 1, "query-twice", "%s reported %v twice", what, ws)
		t.Check(ws.in, "query-removed", "%s reported %v, which was removed", what, ws)
		t.Check(admitted(ws), "query-filter", "%s reported %v whose filter %v rules it out", what, ws, ws.filter)
		return ws
	}
	switch q.kind {
	case 0:
		data := new(int)
		w.sp.BBQuery(cp.BB{L: q.box.L, B: q.box.B, R: q.box.R, T: q.box.T}, q.filter, func(s *cp.Shape, d interface{}) {
			t.Check(d == data, "query-data", "%s: data %v", what, d)
			see(s)
			runNested()
		}, data)
		for _, ws := range w.shapes {
			gap := effOf(ws).Bounds().Gap(q.box)
			if count[ws.id] > 0 {
				t.Check(gap <= tol, "bbquery-false", "%s reported %v, whose box is %v away", what, ws, gap)
			} else if admitted(ws) {
				t.Check(gap >= -tol, "bbquery-miss", "%s missed %v, whose box %v overlaps it", what, ws, effOf(ws).Bounds())
			}
			found += count[ws.id]
		}
	case 1:
		info := w.sp.PointQueryNearest(v(q.p), q.max, q.filter)
		best := math.Inf(1)
		var bs *WShape
		for _, ws := range w.shapes {
			if admitted(ws) && !ws.sensor {
				if d := effOf(ws).Signed(q.p); d < best {
					best, bs = d, ws
				}
			}
		}
		if info == nil || info.Shape == nil {
			t.Check(!(best < q.max-tol), "nearest-miss", "%s found nothing, but %v is at distance %v", what, bs, best)
			break
		}
		ws := see(info.Shape)
		t.Check(!ws.sensor, "nearest-sensor", "%s found the sensor %v", what, ws)
		d := effOf(ws).Signed(q.p)
		t.Check(d <= q.max+tol, "nearest-too-far", "%s found %v at distance %v", what, ws, d)
		t.Check(d <= best+tol, "nearest-not-best", "%s found %v at distance %v, but %v is at %v", what, ws, d, bs, best)
		checkPointInfo(t, what, effOf(ws), q.p, *info, w.u+4*w.cfg.Size+q.p.Len())
		found++
	case 2:
		data := new(int)
		w.sp.SegmentQuery(v(q.a), v(q.b), q.r, q.filter, func(s *cp.Shape, point, normal cp.Vector, alpha float64, d interface{}) {
			t.Check(d == data, "query-data", "%s: data %v", what, d)
			ws := see(s)
			e := effOf(ws)
			sc := w.u + 4*w.cfg.Size + q.a.Len() + q.b.Len() + ws.geoScale(e)
			want := exactRay(e, q.a, q.b, q.r, sc)
			if want.sure {
				t.Check(want.hit, "ray-false", "%s reported %v at alpha %v, but it misses", what, ws, alpha)
				checkRayHit(t, what, e, q.a, q.b, q.r, cp.SegmentQueryInfo{Shape: s, Point: point, Normal: normal, Alpha: alpha}, want, sc)
			}
			runNested()
		}, data)
		for _, ws := range w.shapes {
			found += count[ws.id]
			if count[ws.id] == 0 && admitted(ws) {
				e := effOf(ws)
				sc := w.u + 4*w.cfg.Size + q.a.Len() + q.b.Len() + ws.geoScale(e)
				want := exactRay(e, q.a, q.b, q.r, sc)
				if want.sure && want.hit && !cornerCrack(e, q.a, q.b, q.r, want, sc) && !endGraze(want) {
					t.Failf("ray-miss", "%s missed %v (%v), hit at %v", what, ws, e, want.alpha)
				}
			}
		}
	case 3:
		info := w.sp.SegmentQueryFirst(v(q.a), v(q.b), q.r, q.filter)
		best := math.Inf(1)
		var bs *WShape
		l := q.a.Dist(q.b)
		for _, ws := range w.shapes {
			if !admitted(ws) || ws.sensor {
				continue
			}
			e := effOf(ws)
			sc := w.u + 4*w.cfg.Size + q.a.Len() + q.b.Len() + ws.geoScale(e)
			want := exactRay(e, q.a, q.b, q.r, sc)
			if want.sure && want.hit && !cornerCrack(e, q.a, q.b, q.r, want, sc) && !endGraze(want) && want.alpha < best {
				best, bs = want.alpha, ws
			}
		}
		if info.Shape == nil {
			t.Check(bs == nil, "first-miss", "%s found nothing, but %v is hit at %v", what, bs, best)
			t.Check(info.Alpha == 1 && g(info.Point) == q.b, "first-miss-info", "%s found nothing, with alpha %v and point %v", what, info.Alpha, info.Point)
			break
		}
		ws := see(info.Shape)
		found++
		t.Check(!ws.sensor, "first-sensor", "%s found the sensor %v", what, ws)
		sc := w.u + 4*w.cfg.Size + q.a.Len() + q.b.Len() + ws.geoScale(effOf(ws))
		t.Check((info.Alpha-best)*l <= 1e-3*sc, "first-not-first", "%s found %v at %v, but %v is hit at %v", what, ws, info.Alpha, bs, best)
		e := effOf(ws)
		want := exactRay(e, q.a, q.b, q.r, sc)
		if want.sure {
			t.Check(want.hit, "ray-false", "%s found %v at alpha %v, but it misses", what, ws, info.Alpha)
			checkRayHit(t, what, e, q.a, q.b, q.r, info, want, sc)
		}
	case 4:
		solid := false
		open := false
		got := w.sp.ShapeQuery(q.qs, func(s *cp.Shape, pts *cp.ContactPointSet) {
			t.Check(s != q.qs, "query-self", "%s reported the query shape itself", what)
			ws := see(s)
			e := effOf(ws)
			n, ps := setPts(*pts)
			checkContacts(t, what+" "+ws.String(), q.qg, e, n, ps, w.u+4*w.cfg.Size+ws.geoScale(e)+ws.geoScale(q.qg))
			if !q.sensor && !ws.sensor {
				solid = true
			}
			runNested()
		})
		for _, ws := range w.shapes {
			found += count[ws.id]
			if !admitted(ws) || ws == q.own {
				continue
			}
			k := geomTouch(q.qg, effOf(ws))
			if k == -1 {
				open = true
			}
			t.Check(count[ws.id] > 0 || k != 1, "shapequery-miss", "%s missed %v, which overlaps it", what, ws)
			t.Check(count[ws.id] == 0 || k != 0, "shapequery-false", "%s reported %v, which is %v away", what, ws, geo.Gap(q.qg, effOf(ws)))
		}
		t.Check(got == solid, "shapequery-result", "%s returned %v; a pair of non-sensors overlapped: %v", what, got, solid)
		if !open {
			t.Check(w.sp.ShapeQuery(q.qs, nil) == got, "shapequery-nil", "%s without a callback differs", what)
		}
	}
	t.LabelIf(found > 0, fmt.Sprintf("found:%d", q.kind))
	return
}

// endGraze: the ray first touches the shape at its very end, where an index may leave it out.
func endGraze(r rayAnswer) bool { return !r.inside && r.alpha > 1-1e-9 }

func (s *WShape) geoScale(e geo.Shape) float64 {
	m := e.R
	for _, p := range e.Core {
		m = math.Max(m, p.Len())
	}
	return m
}

// snapshot is what a query must not change.
func (w *World) snapshot() []float64 {
	var out []float64
	b2f := func(b bool) float64 {
		if b {
			return 1
		}
		return 0
	}
	for _, wb := range w.bodies {
		b := wb.b
		p, vel := b.Position(), b.Velocity()
		out = append(out, p.X, p.Y, b.Angle(), vel.X, vel.Y, b.AngularVelocity(), b2f(b.IsSleeping()), b.Force().X, b.Torque(), b.IdleTime())
	}
	for _, ws := range w.shapes {
		bb := ws.s.BB()
		out = append(out, bb.L, bb.B, bb.R, bb.T, b2f(w.sp.ContainsShape(ws.s)))
	}
	return out
}

func (w *World) checkSame(what string, a, b []float64) {
	for i := range a {
		w.t.Check(a[i] == b[i], "query-changes", "%s changed the space (value %d: %v to %v)", what, i, a[i], b[i])
	}
}

func (w *World) askChecked(q *Q) int {
	w.t.Logf("%v nested %v", q, q.nested)
	before := w.snapshot()
	n := w.ask(q, func(s *WShape) geo.Shape { return s.eff })
	w.checkSame(q.String(), before, w.snapshot())
	return n
}

func c06History(t *pbt.T) {
	w := newWorld(t, WCfg{Units: true, Rogues: true, Sleep: t.P(1, 3), Joints: t.P(1, 4), Filters: t.Bool(), Sensors: true, Retype: t.P(1, 3), Kinematic: true, Mutate: t.P(1, 2), Hash: t.P(1, 2), Handlers: 1, NoGravity: t.Bool()})
	c06Run(w, 6, 30)
}

func c06Crowd(t *pbt.T) {
	w := newWorld(t, WCfg{Units: true, Rogues: true, Filters: t.P(1, 3), Sensors: true, Kinematic: true, Hash: t.Bool(), Handlers: 1, Size: t.Log(5, 40), MaxBodies: 30})
	c06Run(w, 5, 15)
}

func c06Run(w *World, min, max int) {
	t := w.t
	var still []bool
	var pending []*Q
	w.beforeStep = func() {
		still = still[:0]
		for _, wb := range w.bodies {
			still = append(still, wb.still())
		}
		pending = nil
		if t.P(1, 4) {
			t.List(1, 3, func(int) { pending = append(pending, w.genQuery(1)) })
			for _, q := range pending {
				if q.own != nil { // its cached geometry moves with its body
					*q = Q{kind: 0, filter: q.filter, box: geo.Box{L: -5 * w.u, B: -5 * w.u, R: 5 * w.u, T: 5 * w.u}}
				}
				for _, n := range q.nested {
					if n.own != nil {
						*n = Q{kind: 0, filter: n.filter, box: geo.Box{L: -5 * w.u, B: -5 * w.u, R: 5 * w.u, T: 5 * w.u}}
					}
				}
				t.Logf("in a callback: %v nested %v", q, q.nested)
			}
		}
	}
	w.onEvent = func(kind byte, a, b *WShape, _ arbT) {
		if kind == 's' || !w.inStep {
			return
		}
		for i, q := range pending {
			if w.chance('q'+kind+byte(i), a, b, 1, 3) {
				t.Label("query-in-callback")
				w.ask(q, func(s *WShape) geo.Shape {
					if still[s.wb.id] {
						return s.eff
					}
					return s.place()
				})
			}
		}
	}
	w.afterStep = func() { w.checkPairs(still) }
	w.populate()
	hits := 0
	query := func() {
		q := w.genQuery(2)
		if w.askChecked(q) > 0 {
			hits++
		}
	}
	t.List(min, max, func(int) {
		switch t.Weighted(6, 6, 12, 1) {
		case 0:
			w.Edit()
		case 1:
			w.Step()
		case 2:
			query()
		case 3: // would it fit there? A body is moved, and a shape of it asks before it is reindexed
			ws := w.pickShape(func(s *WShape) bool { return s.in && s.wb.id > 0 })
			if ws == nil {
				break
			}
			p := genP(t, w.cfg.Size)
			if o := w.pickShape(func(s *WShape) bool { return s.in && s.wb != ws.wb }); o != nil && t.P(2, 3) {
				p = genNear(t, o.eff, spread(o.eff.Core)+o.eff.R)
			}
			ws.wb.b.SetPosition(v(p))
			if t.Bool() {
				ws.wb.b.SetAngle(t.Angle())
			}
			q := &Q{kind: 4, own: ws, d: ws.d, qs: ws.s, qg: ws.place(), filter: ws.filter, sensor: ws.sensor}
			t.Logf("%v moved to %v, and %v asks", ws.wb, p, q)
			t.Label("moved shape asks")
			if w.ask(q, func(s *WShape) geo.Shape { return s.eff }) > 0 {
				hits++
			}
			w.reindex(ws.wb)
		}
	})
	query()
	t.NonTrivialIf(hits >= 3)
}

// c06Rays: a row of shapes and many rays, to exercise walking the cells and pruning the tree.
func c06Rays(t *pbt.T) {
	w := newWorld(t, WCfg{Units: true, Rogues: true, Filters: t.P(1, 3), Sensors: true, Kinematic: true, Hash: t.P(2, 3), Handlers: 0, Size: t.Log(3, 30), MaxBodies: 16})
	w.populate()
	w.Step()
	hits := 0
	t.List(3, 12, func(int) {
		q := w.genQuery(0)
		if q.kind != 2 && q.kind != 3 {
			q.kind = 2 + t.Intn(2)
			q.a, q.b = genP(t, 2*w.cfg.Size), genP(t, 2*w.cfg.Size)
			if t.P(1, 3) {
				q.b.X = q.a.X
			} else if t.P(1, 3) {
				q.b.Y = q.a.Y
			}
			if q.a.Dist(q.b) < 1e-3*w.u {
				q.b = q.a.Add(P{2, 1}.Mul(w.u))
			}
			if t.P(1, 4) {
				q.r = t.F(0, 3) * w.u
			}
		}
		if w.askChecked(q) > 0 {
			hits++
		}
	})
	t.NonTrivialIf(hits >= 2)
}

func pinShapeQueryResult(t *pbt.T) {
	for _, order := range [][2]bool{{true, false}, {false, true}} {
		sp := cp.NewSpace()
		for i, sensor := range order {
			s := sp.AddShape(cp.NewCircle(sp.StaticBody, 1, cp.Vector{X: float64(i)}))
			s.SetSensor(sensor)
		}
		q := cp.NewCircle(cp.NewBody(1, 1), 1, cp.Vector{})
		n := 0
		got := sp.ShapeQuery(q, func(*cp.Shape, *cp.ContactPointSet) { n++ })
		t.Check(n == 2 && got, "shapequery-result", "a solid shape and a sensor overlap (%d callbacks), ShapeQuery returned %v", n, got)
	}
}

func pinFatRay(t *pbt.T) {
	for _, hash := range []bool{false, true} {
		sp := cp.NewSpace()
		if hash {
			sp.UseSpatialHash(1, 100)
		}
		a := sp.AddShape(cp.NewCircle(sp.StaticBody, 1, cp.Vector{X: 5, Y: 2}))
		sp.AddShape(cp.NewCircle(sp.StaticBody, 1, cp.Vector{X: 25, Y: 2}))
		n := 0
		sp.SegmentQuery(cp.Vector{}, cp.Vector{X: 10}, 1.5, cp.SHAPE_FILTER_ALL, func(*cp.Shape, cp.Vector, cp.Vector, float64, interface{}) { n++ }, nil)
		t.Check(n == 1, "ray-miss", "a ray of radius 1.5 passing 1 from a circle's edge hit %d shapes (hash %v)", n, hash)
		t.Check(sp.SegmentQueryFirst(cp.Vector{}, cp.Vector{X: 10}, 1.5, cp.SHAPE_FILTER_ALL).Shape == a, "first-miss", "SegmentQueryFirst missed it (hash %v)", hash)
	}
}

func pinHashRay(t *pbt.T) {
	sp := cp.NewSpace()
	sp.UseSpatialHash(1, 1009)
	for i := 1; i <= 8; i++ {
		sp.AddShape(cp.NewCircle(sp.StaticBody, 0.2, cp.Vector{X: -float64(i) + 0.5, Y: -float64(i) + 0.5}))
	}
	for _, d := range []cp.Vector{{X: -8, Y: -8}, {X: -8, Y: -7.9}, {X: -7.9, Y: -8}} {
		n := 0
		sp.SegmentQuery(cp.Vector{}, d, 0, cp.SHAPE_FILTER_ALL, func(*cp.Shape, cp.Vector, cp.Vector, float64, interface{}) { n++ }, nil)
		t.Check(n == 8, "ray-miss", "the ray to %v through 8 circles hit %d", d, n)
	}
	for i := 1; i <= 8; i++ {
		sp.AddShape(cp.NewCircle(sp.StaticBody, 0.2, cp.Vector{X: -float64(i) + 0.5, Y: 20.5}))
	}
	n := 0
	sp.SegmentQuery(cp.Vector{X: 0, Y: 20.25}, cp.Vector{X: -8, Y: 20.75}, 0, cp.SHAPE_FILTER_ALL, func(*cp.Shape, cp.Vector, cp.Vector, float64, interface{}) { n++ }, nil)
	t.Check(n >= 3, "ray-miss", "the flat ray hit %d circles", n)
}

func pinHashNested(t *pbt.T) {
	sp := cp.NewSpace()
	sp.UseSpatialHash(1, 100)
	for i := 0; i < 6; i++ {
		b := sp.AddBody(cp.NewBody(1, 1))
		b.SetPosition(cp.Vector{X: float64(i)})
		sp.AddShape(cp.NewCircle(b, 0.7, cp.Vector{})).SetCollisionType(1)
	}
	all := func() (n int) {
		sp.BBQuery(cp.BB{L: -2, B: -2, R: 8, T: 2}, cp.SHAPE_FILTER_ALL, func(*cp.Shape, interface{}) { n++ }, nil)
		return
	}
	outer := 0
	sp.BBQuery(cp.BB{L: -2, B: -2, R: 8, T: 2}, cp.SHAPE_FILTER_ALL, func(*cp.Shape, interface{}) {
		outer++
		n := all()
		t.Check(n == 6, "bbquery-miss", "a query inside a query found %d of 6 shapes", n)
	}, nil)
	t.Check(outer == 6, "query-twice", "the outer query reported %d shapes, there are 6", outer)
	outer = 0
	sp.SegmentQuery(cp.Vector{X: -2}, cp.Vector{X: 8}, 0, cp.SHAPE_FILTER_ALL, func(*cp.Shape, cp.Vector, cp.Vector, float64, interface{}) {
		outer++
		all()
	}, nil)
	t.Check(outer == 6, "query-twice", "the outer segment query reported %d shapes, there are 6", outer)
	calls := 0
	sp.NewCollisionHandler(1, 1).PreSolveFunc = func(*cp.Arbiter, *cp.Space, interface{}) bool {
		calls++
		n := all()
		t.Check(n == 6, "bbquery-miss", "a query in a collision callback found %d of 6 shapes", n)
		return true
	}
	sp.Step(0.01)
	t.Check(calls == 5, "missed-collision", "%d of 5 pairs collided", calls)
}

// pinBodilessSegment: a segment without a body is as good a probe as any.
func pinBodilessSegment(t *pbt.T) {
	sp := cp.NewSpace()
	box := sp.AddShape(cp.NewBox(sp.StaticBody, 2, 2, 0))
	seg := sp.AddShape(cp.NewSegment(sp.StaticBody, cp.Vector{X: -1, Y: 0.5}, cp.Vector{X: 1}, 0.5))
	circle := sp.AddShape(cp.NewCircle(sp.StaticBody, 1, cp.Vector{}))
	probe := cp.NewSegment(nil, cp.Vector{X: -5}, cp.Vector{X: 5}, 0.1)
	probe.Update(cp.NewTransformIdentity())
	n := map[*cp.Shape]int{}
	sp.ShapeQuery(probe, func(s *cp.Shape, _ *cp.ContactPointSet) { n[s]++ })
	t.Check(n[box] == 1 && n[seg] == 1 && n[circle] == 1, "shapequery-miss", "a segment without a body found the box %d, the segment %d and the circle %d times", n[box], n[seg], n[circle])
}
