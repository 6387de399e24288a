package props

import (
	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C07", Quick: 45000, Thorough: 3000000,
		Rule: "pairs of filters drawn bit by bit, and scenes of 2..9 overlapping shapes (moving, static, kinematic, on one body or several, sleeping or not) whose filters change between steps and queries of all kinds; non-trivial: some pairs are rejected and some accepted",
		Subs: []Sub{{"pair", 1, c07Pair}, {"scene", 4, c07Scene}},
		Pins: []Pin{{"constants", c07Constants}},
	})
}

// bits draws a bit set with few, many, or all bits.
func genBits(t *pbt.T) uint {
	switch t.Intn(5) {
	case 0:
		return 0
	case 1:
		return cp.ALL_CATEGORIES
	case 2:
		return 1 << uint(t.Intn(64))
	case 3:
		return uint(t.Intn(8))
	}
	return uint(t.U64())
}

func genFilter2(t *pbt.T) cp.ShapeFilter {
	f := cp.ShapeFilter{Categories: cp.ALL_CATEGORIES, Mask: cp.ALL_CATEGORIES}
	switch t.Intn(4) {
	case 1:
		f.Group = uint(1 + t.Intn(3))
	case 2:
		f.Group = uint(t.U64())
	}
	if t.Bool() {
		f.Categories = genBits(t)
	}
	if t.Bool() {
		f.Mask = genBits(t)
	}
	return f
}

func c07Constants(t *pbt.T) {
	t.Check(!cp.SHAPE_FILTER_ALL.Reject(cp.SHAPE_FILTER_ALL), "filter", "SHAPE_FILTER_ALL rejects itself")
	t.Check(cp.SHAPE_FILTER_NONE.Reject(cp.SHAPE_FILTER_ALL) && cp.SHAPE_FILTER_ALL.Reject(cp.SHAPE_FILTER_NONE), "filter", "SHAPE_FILTER_NONE accepts SHAPE_FILTER_ALL")
	t.Check(cp.NewShapeFilter(1, 2, 3) == cp.ShapeFilter{Group: 1, Categories: 2, Mask: 3}, "filter", "NewShapeFilter(1,2,3)=%v", cp.NewShapeFilter(1, 2, 3))
	s := cp.NewCircle(cp.NewStaticBody(), 1, cp.Vector{})
	t.Check(s.Filter == cp.SHAPE_FILTER_ALL, "filter", "a new shape's filter is %v", s.Filter)
}

func c07Pair(t *pbt.T) {
	a, b := genFilter2(t), genFilter2(t)
	if t.P(1, 4) {
		b.Group = a.Group
	}
	if t.P(1, 4) {
		b.Mask = a.Categories
	}
	if t.P(1, 4) {
		b.Categories = ^a.Mask
	}
	t.Logf("%v %v", a, b)
	want := rejects(a, b)
	t.Check(a.Reject(b) == want, "filter", "%v.Reject(%v)=%v want %v", a, b, !want, want)
	t.Check(b.Reject(a) == want, "filter", "%v.Reject(%v)=%v want %v", b, a, !want, want)
	t.NonTrivialIf(a.Group != 0 || a.Categories != cp.ALL_CATEGORIES || a.Mask != cp.ALL_CATEGORIES)
}

// c07Scene keeps every shape overlapping every other one deeply, so only the filters decide.
func c07Scene(t *pbt.T) {
	w := &World{t: t, u: 1, sp: cp.NewSpace(), dt: 1.0 / 60, salt: t.U64()}
	w.cfg.Size = 4
	st := &WBody{b: w.sp.StaticBody, typ: cp.BODY_STATIC, in: true}
	w.bodies = append(w.bodies, st)
	sleep := t.P(1, 4)
	if sleep {
		w.sp.SleepTimeThreshold = 1.5 * w.dt
		w.sp.IdleSpeedThreshold = 1e9
		t.Label("sleep")
	}
	if t.Bool() {
		w.useHash()
	}
	w.record(w.sp.NewWildcardCollisionHandler(0))
	w.sp.Iterations = 1
	w.decide = func(kind byte, _, _ *WShape, _ arbT) bool { return kind == 'b' }
	add := func(wb *WBody) {
		ws := &WShape{id: len(w.shapes), wb: wb, d: Def{Kind: "circle", R: 5, Pts: []P{genP(t, 1)}}, filter: cp.SHAPE_FILTER_ALL}
		if t.P(1, 3) {
			ws.d = Def{Kind: "box", W: 10, H: 8, Pts: []P{{-5, -4}, {5, -4}, {5, 4}, {-5, 4}}}
		}
		ws.s = ws.d.Make(wb.b)
		ws.s.UserData = ws
		if t.P(3, 4) {
			ws.filter = genFilter2(t)
		}
		ws.s.SetFilter(ws.filter)
		w.shapes = append(w.shapes, ws)
		w.addShape(ws)
		t.Logf("%v on %v (type %d): %v filter %v", ws, wb, wb.typ, ws.d, ws.filter)
	}
	t.List(2, 9, func(int) {
		wb := w.bodies[t.Intn(len(w.bodies))]
		if t.P(3, 4) || wb.id == 0 && t.Bool() {
			typ := []int{cp.BODY_DYNAMIC, cp.BODY_STATIC, cp.BODY_KINEMATIC}[t.Weighted(5, 1, 1)]
			wb = &WBody{id: len(w.bodies), typ: typ, in: true}
			switch typ {
			case cp.BODY_DYNAMIC:
				wb.b = cp.NewBody(1, 1)
			case cp.BODY_STATIC:
				wb.b = cp.NewStaticBody()
			default:
				wb.b = cp.NewKinematicBody()
			}
			w.sp.AddBody(wb.b)
			w.bodies = append(w.bodies, wb)
		}
		add(wb)
	})
	all := func(s *WShape) bool { return s.in }
	t.List(1, 8, func(int) {
		switch t.Weighted(3, 2, 3, 1, 1) {
		case 0: // step
			still := make([]bool, len(w.bodies))
			for i, wb := range w.bodies {
				still[i] = wb.still()
			}
			w.Step()
			acc, rej := 0, 0
			cnt := map[[2]int]int{}
			for _, e := range w.ev {
				if e.kind == 'p' || e.kind == 'b' {
					cnt[[2]int{e.a.id, e.b.id}]++
					cnt[[2]int{e.b.id, e.a.id}]++
				}
			}
			for i, a := range w.shapes {
				for j, b := range w.shapes[:i] {
					if a.wb == b.wb || !a.in || !b.in {
						continue
					}
					want := !rejects(a.filter, b.filter)
					idle := still[a.wb.id] && still[b.wb.id]
					if want && !idle {
						t.Check(cnt[[2]int{i, j}] > 0, "filter-missed", "%v (filter %v) and %v (filter %v) should collide", a, a.filter, b, b.filter)
						acc++
					} else if !want {
						t.Check(cnt[[2]int{i, j}] == 0, "filter-ignored", "%v (filter %v) and %v (filter %v) should not collide", a, a.filter, b, b.filter)
						rej++
					}
				}
			}
			t.NonTrivialIf(acc > 0 && rej > 0)
		case 1: // change a filter, or the exported field's copy of it
			ws := w.pickShape(all)
			if ws == nil {
				return
			}
			ws.filter = genFilter2(t)
			ws.s.SetFilter(ws.filter)
			t.Logf("filter of %v: %v", ws, ws.filter)
			t.Check(ws.s.Filter == ws.filter, "filter-set", "filter reads %v after setting %v", ws.s.Filter, ws.filter)
		case 2: // queries that reach every shape
			f := genFilter2(t)
			if t.P(1, 4) {
				f = cp.SHAPE_FILTER_ALL
			}
			t.Logf("queries with %v", f)
			w.filterQueries(f)
		case 3:
			ws := w.pickShape(all)
			if ws != nil && t.Bool() {
				t.Logf("remove %v", ws)
				w.removeShape(ws)
			}
		case 4:
			if ws := w.pickShape(func(s *WShape) bool { return !s.in }); ws != nil {
				t.Logf("add %v back", ws)
				w.addShape(ws)
			}
		}
	})
}

func (w *World) filterQueries(f cp.ShapeFilter) {
	t := w.t
	var got [3]map[*cp.Shape]int
	for i := range got {
		got[i] = map[*cp.Shape]int{}
	}
	w.sp.BBQuery(cp.BB{L: -40, B: -40, R: 40, T: 40}, f, func(s *cp.Shape, _ interface{}) { got[0][s]++ }, nil)
	r := 0.0
	if t.Bool() {
		r = 0.5
	}
	// bodies stay near the origin (everything is within reach of a long ray only if it passes them), so use a fat one
	w.sp.SegmentQuery(cp.Vector{X: -60}, cp.Vector{X: 60}, 40+r, f, func(s *cp.Shape, _, _ cp.Vector, _ float64, _ interface{}) { got[1][s]++ }, nil)
	q := cp.NewBox(cp.NewBody(1, 1), 80, 80, 0)
	q.SetFilter(f)
	w.sp.ShapeQuery(q, func(s *cp.Shape, _ *cp.ContactPointSet) { got[2][s]++ })
	any := false
	for _, ws := range w.shapes {
		if !ws.in {
			continue
		}
		if p := ws.place().Core[0]; p.Len() > 30 {
			t.Discard("a body drifted away")
		}
		want := 1
		if rejects(ws.filter, f) {
			want = 0
		} else {
			any = true
		}
		for i, name := range []string{"BBQuery", "SegmentQuery", "ShapeQuery"} {
			t.Check(got[i][ws.s] == want, "query-filter", "%s with filter %v reported %v (filter %v) %d times, want %d", name, f, ws, ws.filter, got[i][ws.s], want)
		}
		// a query that can only find this shape's kind of filter
		info := w.sp.PointQueryNearest(cp.Vector{}, 100, f)
		if info.Shape != nil {
			o := info.Shape.UserData.(*WShape)
			t.Check(!rejects(o.filter, f), "query-filter", "PointQueryNearest with filter %v found %v (filter %v)", f, o, o.filter)
		}
		t.Check(info.Shape != nil || want == 0, "query-filter", "PointQueryNearest with filter %v found nothing, %v has %v", f, ws, ws.filter)
	}
	first := w.sp.SegmentQueryFirst(cp.Vector{X: -60}, cp.Vector{X: 60}, 40, f)
	t.Check((first.Shape != nil) == any, "query-filter", "SegmentQueryFirst with filter %v found %v, want something: %v", f, first.Shape != nil, any)
	if first.Shape != nil {
		o := first.Shape.UserData.(*WShape)
		t.Check(!rejects(o.filter, f), "query-filter", "SegmentQueryFirst with filter %v found %v (filter %v)", f, o, o.filter)
	}
}
