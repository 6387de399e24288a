package props

import (
	"cpverif/geo"
	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C31", Quick: 700000, Thorough: 6000000,
		Rule: "operation sequences on a hash set (few or many hash values, growth, filtering, reuse) against a map, and on a dynamic tree with a static one against brute force over boxes; non-trivial: at least one removal followed by an insertion and a lookup or query that finds something",
		Subs: []Sub{{"hashset", 1, c31HashSet}, {"tree", 2, c31Tree}},
	})
}

type hsElt struct{ key int }

func c31HashSet(t *pbt.T) {
	set := cp.NewHashSet(func(k int, e *hsElt) bool { return k == e.key })
	model := map[int]*hsElt{}
	var order []int
	mod := []int{1, 3, 1 << 30, 0}[t.Intn(4)]
	salt := t.U64()
	hash := func(k int) cp.HashValue {
		if mod == 0 {
			return cp.HashValue(pbt.Mix(salt, uint64(k)))
		}
		return cp.HashValue(k % mod)
	}
	keys := []int{4, 20, 150}[t.Intn(3)]
	removed, reused, found := false, false, false
	drop := func(k int) {
		delete(model, k)
		for i, x := range order {
			if x == k {
				order = append(order[:i:i], order[i+1:]...)
				break
			}
		}
	}
	check := func() {
		t.Check(int(set.Count()) == len(model), "hashset-count", "Count()=%d, there are %d elements", set.Count(), len(model))
		seen := map[*hsElt]bool{}
		other := t.Intn(keys)
		set.Each(func(e *hsElt) {
			t.Check(set.Find(hash(other), other) == model[other], "hashset-find", "Find(%d) within Each: %v want %v", other, set.Find(hash(other), other), model[other])
			t.Check(e != nil && model[e.key] == e, "hashset-each", "Each visits %v, which is not in the set", e)
			t.Check(!seen[e], "hashset-each", "Each visits %v twice", e)
			seen[e] = true
		})
		t.Check(len(seen) == len(model), "hashset-each", "Each visits %d of %d elements", len(seen), len(model))
		for k := 0; k < keys; k++ {
			t.Check(set.Find(hash(k), k) == model[k], "hashset-find", "Find(%d)=%v want %v", k, set.Find(hash(k), k), model[k])
		}
		found = found || len(model) > 0
	}
	t.List(5, 120, func(int) {
		k := t.Intn(keys)
		switch t.Weighted(8, 5, 1, 2, 1) {
		case 0:
			made := false
			want := model[k]
			e := set.Insert(hash(k), k, func(x int) *hsElt {
				made = true
				t.Check(x == k, "hashset-transform", "transform(%d) for key %d", x, k)
				return &hsElt{x}
			})
			t.Logf("insert %d", k)
			t.Check(made == (want == nil), "hashset-insert", "inserting %d made a new element: %v, was in the set: %v", k, made, want != nil)
			t.Check(e != nil && e.key == k && (want == nil || e == want), "hashset-insert", "inserting %d returned %v", k, e)
			if want == nil {
				model[k] = e
				order = append(order, k)
				reused = reused || removed
			}
		case 1:
			t.Logf("remove %d", k)
			e := set.Remove(hash(k), k)
			t.Check(e == model[k], "hashset-remove", "Remove(%d)=%v want %v", k, e, model[k])
			if e != nil {
				removed = true
				drop(k)
			}
		case 2:
			den := uint64(t.Int(1, 4))
			s := t.U64()
			keep := func(k int) bool { return pbt.Mix(s, uint64(k))%den != 0 }
			t.Logf("filter 1/%d", den)
			seen := map[int]int{}
			set.Filter(func(e *hsElt) bool { seen[e.key]++; return keep(e.key) })
			for _, k := range append([]int(nil), order...) {
				t.Check(seen[k] == 1, "hashset-filter", "Filter asked about %d %d times", k, seen[k])
				if !keep(k) {
					drop(k)
					removed = true
				}
			}
		case 3:
			check()
		case 4: // many at once
			for i := 0; i < t.Intn(30); i++ {
				k := t.Intn(keys)
				if model[k] == nil {
					order = append(order, k)
					reused = reused || removed
				}
				model[k] = set.Insert(hash(k), k, func(x int) *hsElt { return &hsElt{x} })
			}
		}
	})
	check()
	t.NonTrivialIf(reused && found)
}

type ixItem struct {
	s      *cp.Shape
	id     int
	box    geo.Box // current
	eff    geo.Box // as indexed
	hash   cp.HashValue
	in     bool
	static bool
}

func c31Tree(t *pbt.T) {
	body := cp.NewStaticBody()
	var items []*ixItem
	byShape := func(s *cp.Shape) *ixItem { return s.UserData.(*ixItem) }
	bbf := func(s *cp.Shape) cp.BB {
		b := byShape(s).box
		return cp.BB{L: b.L, B: b.B, R: b.R, T: b.T}
	}
	withStatic := t.P(2, 3)
	var st *cp.SpatialIndex
	if withStatic {
		st = cp.NewBBTree(bbf, nil)
	}
	dyn := cp.NewBBTree(bbf, st)
	tree := func(it *ixItem) *cp.BBTree {
		if it.static {
			return st.GetTree()
		}
		return dyn.GetTree()
	}
	u := 1.0
	if t.P(1, 5) {
		u = t.Log(1e-3, 1e3)
	}
	size := t.Log(2, 40) * u
	genBox := func() geo.Box {
		p := genP(t, size)
		w, h := t.F(0, 4)*u, t.F(0, 4)*u
		if t.P(1, 6) {
			w = 0
		}
		return geo.Box{L: p.X, B: p.Y, R: p.X + w, T: p.Y + h}
	}
	nh := []int{1, 5, 1000}[t.Intn(3)]
	pick := func(f func(*ixItem) bool) *ixItem {
		var c []*ixItem
		for _, x := range items {
			if f(x) {
				c = append(c, x)
			}
		}
		if len(c) == 0 {
			return nil
		}
		return c[t.Intn(len(c))]
	}
	isIn := func(x *ixItem) bool { return x.in }
	removed, reused, found := false, false, false
	ids := map[[2]int]uint32{}
	collide := func(f func(a, b *ixItem)) {
		calls := uint32(0)
		data := new(int)
		dyn.GetTree().ReindexQuery(func(a interface{}, b *cp.Shape, id uint32, d interface{}) uint32 {
			t.Check(d == data, "index-data", "ReindexQuery passed data %v", d)
			x, y := byShape(a.(*cp.Shape)), byShape(b)
			k := intKey(x.id, y.id)
			if id != 0 {
				t.Check(ids[k] == id, "tree-pair-id", "pair %d,%d came with id %d, last returned %d", x.id, y.id, id, ids[k])
			}
			f(x, y)
			calls++
			ids[k] = uint32(pbt.Mix(uint64(k[0]), uint64(k[1]), uint64(calls)))
			return ids[k]
		}, data)
	}
	check := func() {
		for _, static := range []bool{false, true} {
			if static && !withStatic {
				continue
			}
			tr := dyn.GetTree()
			if static {
				tr = st.GetTree()
			}
			n := 0
			for _, x := range items {
				t.Check(tr.Contains(x.s, x.hash) == (x.in && x.static == static), "tree-contains", "Contains(%d)=%v", x.id, tr.Contains(x.s, x.hash))
				if x.in && x.static == static {
					n++
				}
			}
			t.Check(tr.Count() == n, "tree-count", "Count()=%d want %d", tr.Count(), n)
			seen := map[int]bool{}
			tr.Each(func(s *cp.Shape) {
				x := byShape(s)
				t.Check(x.in && x.static == static && !seen[x.id], "tree-each", "Each visits %d (in %v) seen before %v", x.id, x.in, seen[x.id])
				seen[x.id] = true
			})
			t.Check(len(seen) == n, "tree-each", "Each visits %d of %d", len(seen), n)
		}
	}
	t.List(5, 80, func(int) {
		switch t.Weighted(6, 3, 3, 2, 3, 3, 1, 2) {
		case 0: // insert new or back
			x := pick(func(x *ixItem) bool { return !x.in })
			if x == nil || t.Bool() {
				x = &ixItem{id: len(items), hash: cp.HashValue(t.Intn(nh)), static: withStatic && t.P(1, 3)}
				x.s = cp.NewCircle(body, 1, cp.Vector{})
				x.s.UserData = x
				items = append(items, x)
			}
			x.box = genBox()
			x.eff = x.box
			x.in = true
			reused = reused || removed
			t.Logf("insert %d %v static=%v", x.id, x.box, x.static)
			tree(x).Insert(x.s, x.hash)
		case 1:
			if x := pick(isIn); x != nil {
				t.Logf("remove %d", x.id)
				x.in = false
				removed = true
				tree(x).Remove(x.s, x.hash)
			}
		case 2: // move and reindex
			if x := pick(isIn); x != nil {
				x.box = genBox()
				if t.Bool() { // a small move, or a shrink
					b := x.eff
					d := genP(t, 0.3*u)
					x.box = geo.Box{L: b.L + d.X, R: b.R + d.X, B: b.B + d.Y, T: b.T + d.Y}
				}
				x.eff = x.box
				t.Logf("move %d to %v and reindex", x.id, x.box)
				tree(x).ReindexObject(x.s, x.hash)
			}
		case 3: // move, reindexed by the next ReindexQuery if dynamic
			if x := pick(isIn); x != nil && !x.static {
				x.box = genBox()
				t.Logf("move %d to %v", x.id, x.box)
			}
		case 4: // box query
			b := genBox()
			if t.Bool() {
				b.R += size
				b.T += size
			}
			static := withStatic && t.P(1, 3)
			tr := dyn.GetTree()
			if static {
				tr = st.GetTree()
			}
			obj, data := new(int), new(int)
			seen := map[int]int{}
			tr.Query(obj, cp.BB{L: b.L, B: b.B, R: b.R, T: b.T}, func(o interface{}, s *cp.Shape, _ uint32, d interface{}) uint32 {
				t.Check(o == obj && d == data, "index-data", "Query passed %v %v", o, d)
				x := byShape(s)
				t.Check(x.in && x.static == static, "tree-query", "Query reported %d, which is not in the tree", x.id)
				seen[x.id]++
				t.Check(seen[x.id] == 1, "tree-query", "Query reported %d twice", x.id)
				return 0
			}, data)
			for _, x := range items {
				if x.in && x.static == static && x.eff.Intersects(b) {
					t.Check(seen[x.id] == 1, "tree-query", "Query(%v) missed %d at %v", b, x.id, x.eff)
					found = true
				}
			}
		case 5: // segment query
			a, b := genP(t, 1.5*size), genP(t, 1.5*size)
			if t.P(1, 5) {
				b.X = a.X
			}
			static := withStatic && t.P(1, 3)
			tr := dyn.GetTree()
			if static {
				tr = st.GetTree()
			}
			enter := func(x *ixItem) float64 {
				e := x.eff
				return cp.BB{L: e.L, B: e.B, R: e.R, T: e.T}.SegmentQuery(v(a), v(b))
			}
			seen := map[int]int{}
			tr.SegmentQuery(nil, v(a), v(b), 1, func(_ interface{}, s *cp.Shape, _ interface{}) float64 {
				x := byShape(s)
				t.Check(x.in && x.static == static, "tree-segment", "SegmentQuery reported %d, which is not in the tree", x.id)
				seen[x.id]++
				t.Check(seen[x.id] == 1, "tree-segment", "SegmentQuery reported %d twice", x.id)
				return 1
			}, nil)
			best := 1.0
			for _, x := range items {
				if e := enter(x); x.in && x.static == static && e < 1-1e-9 {
					t.Check(seen[x.id] == 1, "tree-segment", "SegmentQuery(%v,%v) missed %d at %v (enters at %v)", a, b, x.id, x.eff, e)
					found = true
					if e < best {
						best = e
					}
				}
			}
			// the same, looking for the first only
			got := 1.0
			tr.SegmentQuery(nil, v(a), v(b), 1, func(_ interface{}, s *cp.Shape, _ interface{}) float64 {
				if e := enter(byShape(s)); e < got {
					got = e
				}
				return got
			}, nil)
			t.Check(got == best || got > 1-1e-9, "tree-segment", "the first box is entered at %v, SegmentQuery found %v", best, got)
		case 6:
			check()
		case 7: // collide
			seen := map[[2]int]int{}
			t.Logf("reindex query")
			collide(func(x, y *ixItem) {
				t.Check(x.in && y.in && x != y && !(x.static && y.static), "tree-pairs", "pair %d,%d (in %v %v, static %v %v)", x.id, y.id, x.in, y.in, x.static, y.static)
				k := intKey(x.id, y.id)
				seen[k]++
				t.Check(seen[k] == 1, "tree-pairs", "pair %v reported twice", k)
			})
			for i, x := range items {
				if x.in && !x.static {
					x.eff = x.box
				}
				_ = i
			}
			for i, x := range items {
				for _, y := range items[:i] {
					if x.in && y.in && !(x.static && y.static) && x.eff.Intersects(y.eff) {
						t.Check(seen[intKey(x.id, y.id)] == 1, "tree-pairs", "missed pair %d at %v, %d at %v", x.id, x.eff, y.id, y.eff)
						found = true
					}
				}
			}
		}
	})
	check()
	t.NonTrivialIf(reused && found)
}

func intKey(i, j int) [2]int {
	if i > j {
		i, j = j, i
	}
	return [2]int{i, j}
}
