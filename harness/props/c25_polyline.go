package props

import (
	"math"

	"cpverif/geo"
	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C25", Quick: 4000000, Thorough: 40000000,
		Rule: "segments in random order cut from random closed and open paths, some sharing points; open and closed curves of 2..24 points (smooth, jagged, hairpins, lattice walks) with tolerances from far below to above their features. Non-trivial: two segments had to be joined, or the simplification dropped at least one vertex and kept at least one inner one",
		Subs: []Sub{{"collect", 2, c25Collect}, {"curves", 3, c25Curves}, {"vertexes", 3, c25Vertexes}},
		Pins: []Pin{
			{"short-detour", func(t *pbt.T) {
				checkCurve(t, []P{{0, 0}, {5, 3}, {5.01, 3.3}, {5.02, 3}, {10, 0}, {10.05, 0.1}, {10.1, 0}}, 1)
			}},
			{"closed-first-merged", func(t *pbt.T) {
				checkVertexes(t, []P{{1, 0}, {2, 0}, {2, 2}, {0, 2}, {0, 0}, {1, 0}}, 0.1)
			}},
			{"hairpin", func(t *pbt.T) {
				checkCurve(t, []P{{0, 0}, {5, 0.01}, {1, 0}}, 0.1)
			}},
			{"revisited-point", func(t *pbt.T) {
				checkCurve(t, []P{{0, 0}, {4, 1}, {6, 5}, {4, 1}, {8, 0}}, 0.1)
			}},
		},
	})
}

func uniqueEnds(in []dseg) bool {
	heads, tails := map[P]int{}, map[P]int{}
	ok := true
	for _, s := range in {
		heads[s.a]++
		tails[s.b]++
		if heads[s.a] > 1 || tails[s.b] > 1 {
			ok = false
		}
	}
	return ok
}

// checkCollected compares a set with the segments that went into it.
func checkCollected(t *pbt.T, in []dseg, set *cp.PolyLineSet) {
	count := map[dseg]int{}
	heads, tails := map[P]int{}, map[P]int{}
	for _, s := range in {
		count[s]++
		heads[s.a]++
		tails[s.b]++
	}
	total := 0
	for _, l := range set.Lines {
		t.Check(len(l.Verts) >= 2, "collect-line", "a line of %d points", len(l.Verts))
		for i := 0; i+1 < len(l.Verts); i++ {
			s := dseg{g(l.Verts[i]), g(l.Verts[i+1])}
			total++
			count[s]--
			t.Check(count[s] >= 0, "collect-segments", "segment %v is in the set more often than it was collected", s)
		}
	}
	t.Check(total == len(in), "collect-segments", "%d segments were collected, the set holds %d", len(in), total)
	for i, a := range set.Lines {
		for j, b := range set.Lines {
			e := g(a.Verts[len(a.Verts)-1])
			if i == j || e != g(b.Verts[0]) || heads[e] > 1 || tails[e] > 1 {
				continue
			}
			t.Failf("collect-joined", "line %d ends where line %d starts, at %v", i, j, e)
		}
	}
}

func c25Collect(t *pbt.T) {
	var in []dseg
	t.List(1, 4, func(int) {
		n := t.Int(2, 6)
		lattice := t.P(1, 3)
		pt := func() P {
			if lattice {
				return P{float64(t.Int(0, 3)), float64(t.Int(0, 3))}
			}
			return P{t.Real(-10, 10), t.Real(-10, 10)}
		}
		path := make([]P, n)
		for i := range path {
			path[i] = pt()
		}
		if t.Bool() {
			path = append(path, path[0])
		}
		for i := 0; i+1 < len(path); i++ {
			in = append(in, dseg{path[i], path[i+1]})
		}
	})
	// shuffle
	for i := len(in) - 1; i > 0; i-- {
		j := i - t.Intn(i+1)
		in[i], in[j] = in[j], in[i]
	}
	t.Logf("segments %v", in)
	set := &cp.PolyLineSet{}
	for k, s := range in {
		cp.PolyLineCollectSegment(v(s.a), v(s.b), set)
		checkCollected(t, in[:k+1], set)
	}
	for _, l := range set.Lines {
		t.NonTrivialIf(len(l.Verts) > 2)
		first, last := l.Verts[0], l.Verts[len(l.Verts)-1]
		t.Check(l.IsClosed() == (first == last), "is-closed", "IsClosed()=%v for a line from %v to %v", l.IsClosed(), first, last)
		t.LabelIf(l.IsClosed(), "closed line")
	}
}

func genCurve(t *pbt.T, closed bool) []P {
	var pts []P
	size := t.Log(0.5, 50)
	switch t.Weighted(3, 2, 2, 2) {
	case 0: // jagged
		t.List(3, 24, func(int) { pts = append(pts, genP(t, size)) })
	case 1: // smooth
		r, k := t.Real(0.3, 1), float64(t.Int(1, 4))
		n := t.Int(4, 24)
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n)
			q := size * (1 + 0.3*r*math.Sin(k*a))
			pts = append(pts, P{q * math.Cos(a), q * math.Sin(a)})
		}
	case 2: // walk of small and large moves, turning little or back
		p, dir := P{}, t.Angle()
		t.List(3, 24, func(int) {
			pts = append(pts, p)
			switch t.Intn(4) {
			case 0:
				dir += math.Pi
			case 1:
				dir += t.F(-3, 3)
			case 2:
				dir += t.Real(-0.2, 0.2)
			}
			p = p.Add(P{1, 0}.Rot(dir).Mul(size * t.Log(0.001, 1)))
		})
	case 3: // lattice walk
		p := P{}
		t.List(3, 24, func(int) {
			pts = append(pts, p)
			k := float64(t.Int(1, 2))
			p = p.Add([]P{{k, 0}, {0, k}, {-k, 0}, {0, -k}}[t.Intn(4)])
		})
	}
	// no consecutive repeats
	out := pts[:1]
	for _, p := range pts[1:] {
		if p.Dist(out[len(out)-1]) > 1e-6 {
			out = append(out, p)
		}
	}
	if closed {
		for len(out) > 3 && out[0].Dist(out[len(out)-1]) <= 1e-6 {
			out = out[:len(out)-1]
		}
		if len(out) < 3 || out[0].Dist(out[len(out)-1]) <= 1e-6 {
			out = []P{{0, 0}, {size, 0}, {0, size}}
		}
		out = append(out, out[0])
	} else if len(out) > 2 && out[0] == out[len(out)-1] {
		out = out[:len(out)-1]
	}
	if len(out) < 2 {
		out = []P{{0, 0}, {size, 0}}
	}
	return out
}

func scaled(pts []P, u float64) []P {
	out := make([]P, len(pts))
	for i, p := range pts {
		out[i] = p.Mul(u)
	}
	return out
}

func distToPath(p P, path []P) float64 {
	d := math.Inf(1)
	for i := 0; i+1 < len(path); i++ {
		d = math.Min(d, p.Dist(geo.ClosestOnSeg(p, path[i], path[i+1])))
	}
	return d
}

// align finds increasing indices of out's points in pts (cyclically when
// closed), or nil. It tries every start.
func align(pts, out []P, closed bool) []int {
	if !closed {
		var idx []int
		i := 0
		for _, p := range out {
			for i < len(pts) && pts[i] != p {
				i++
			}
			if i == len(pts) {
				return nil
			}
			idx = append(idx, i)
			i++
		}
		return idx
	}
	n := len(pts) - 1
	for s := 0; s < n; s++ {
		if pts[s] != out[0] {
			continue
		}
		var idx []int
		i, ok := s, true
		for _, p := range out {
			for i <= s+n && pts[i%n] != p {
				i++
			}
			if i > s+n {
				ok = false
				break
			}
			idx = append(idx, i)
			i++
		}
		if ok && idx[len(idx)-1] <= s+n {
			return idx
		}
	}
	return nil
}

func c25Curves(t *pbt.T) {
	pts := genCurve(t, t.Bool())
	u := wide(t)
	checkCurve(t, scaled(pts, u), u*t.Log(0.001, 20))
}

func checkCurve(t *pbt.T, pts []P, tol float64) {
	closed := len(pts) > 1 && pts[0] == pts[len(pts)-1]
	t.Logf("curve %v tolerance %v", pts, tol)
	line := &cp.PolyLine{Verts: vecs(pts)}
	red := line.SimplifyCurves(tol)
	for i, p := range pts {
		t.Check(g(line.Verts[i]) == p, "input-changed", "the curve itself was changed at %d", i)
	}
	var out []P
	for _, x := range red.Verts {
		out = append(out, g(x))
	}
	t.Logf("simplified %v", out)
	t.Check(len(out) >= 2 && len(out) <= len(pts), "curve-size", "%d points became %d: %v", len(pts), len(out), out)
	if closed {
		t.Check(out[0] == out[len(out)-1], "curve-closed", "the closed curve became open: %v", out)
	} else {
		t.Check(out[0] == pts[0] && out[len(out)-1] == pts[len(pts)-1], "curve-ends", "the ends became %v and %v", out[0], out[len(out)-1])
	}
	t.Check(align(pts, out, closed) != nil, "curve-order", "the result %v is not made of the curve's points in order", out)
	span := 0.0
	for _, p := range pts {
		span = math.Max(span, p.Len())
	}
	for i, p := range pts {
		d := distToPath(p, out)
		t.Check(d <= tol*(1+1e-9)+1e-12*span, "curve-error", "point %d, %v, is %v from the result %v, tolerance %v", i, p, d, out, tol)
	}
	t.NonTrivialIf(len(out) < len(pts) && len(out) > 2)
	t.LabelIf(closed, "closed")
	t.LabelIf(len(out) == len(pts), "nothing dropped")
}

func c25Vertexes(t *pbt.T) {
	pts := genCurve(t, t.Bool())
	checkVertexes(t, scaled(pts, wide(t)), t.F(0.05, 1.5))
}

func turn(a, b, c P) float64 {
	u, w := b.Sub(a), c.Sub(b)
	return math.Abs(math.Atan2(u.Cross(w), u.Dot(w)))
}

func checkVertexes(t *pbt.T, pts []P, tol float64) {
	closed := len(pts) > 1 && pts[0] == pts[len(pts)-1]
	t.Logf("curve %v angle tolerance %v", pts, tol)
	line := &cp.PolyLine{Verts: vecs(pts)}
	red := line.SimplifyVertexes(tol)
	for i, p := range pts {
		t.Check(g(line.Verts[i]) == p, "input-changed", "the curve itself was changed at %d", i)
	}
	var out []P
	for _, x := range red.Verts {
		out = append(out, g(x))
	}
	t.Logf("merged %v", out)
	t.Check(len(out) >= 2 && len(out) <= len(pts), "merge-size", "%d points became %d: %v", len(pts), len(out), out)
	if closed {
		t.Check(out[0] == out[len(out)-1], "merge-closed", "the closed curve became open: %v", out)
	} else {
		t.Check(out[0] == pts[0] && out[len(out)-1] == pts[len(pts)-1], "merge-ends", "the ends became %v and %v", out[0], out[len(out)-1])
	}
	// replay the rule: a point is dropped when the turn there, coming from the
	// last point kept, is within tolerance; near the tolerance both are right
	const eps = 1e-6
	// points may repeat, so follow every way to read the result as kept points
	type state struct{ k, i int } // out[k] was kept at index i
	states := []int{0}
	first := 0
	if closed && out[0] != pts[0] {
		first = -1 // the first point itself was merged
	}
	if first == 0 {
		t.Check(out[0] == pts[0], "merge-order", "the result starts at %v", out[0])
		k := 0
		for k = 1; k < len(out); k++ {
			next := map[int]bool{}
			for _, i := range states {
				for j := i + 1; j < len(pts); j++ {
					if pts[j] == out[k] {
						next[j] = true
					}
					if j+1 < len(pts) && turn(pts[i], pts[j], pts[j+1]) > tol+eps {
						break // pts[j] cannot be dropped
					}
				}
			}
			states = states[:0]
			for j := 0; j < len(pts); j++ {
				if next[j] {
					states = append(states, j)
				}
			}
			t.Check(len(states) > 0, "merge-dropped", "result point %d, %v, cannot follow: a vertex with a turn above the tolerance %v was dropped, or the order changed: %v", k, out[k], tol, out)
		}
		t.Check(states[len(states)-1] == len(pts)-1, "merge-end", "the result stops before the end: %v", out)
	} else {
		t.Label("first merged")
		t.Check(align(pts, out, true) != nil, "merge-order", "the result %v is not made of the curve's points in order", out)
		tn := turn(out[0], pts[0], out[1])
		t.Check(tn <= tol+eps, "merge-dropped", "the first vertex was dropped, but its turn is %v", tn)
	}
	// no inner vertex left that should have gone
	if idx := align(pts, out, closed); idx != nil && !repeats(pts) {
		n := len(pts) - 1
		for k := 1; k+1 < len(out); k++ {
			j := idx[k]
			nx := j + 1
			if closed {
				j, nx = j%n, (j+1)%n
			}
			tn := turn(out[k-1], pts[j], pts[nx])
			if closed && (j == 0 || out[k-1] == out[0] && first == -1) {
				continue
			}
			t.Check(tn >= tol-eps, "merge-kept", "vertex %v was kept although its turn is %v, tolerance %v", out[k], tn, tol)
		}
		if closed && first == 0 && len(out) > 3 {
			tn := turn(out[len(out)-2], out[0], out[1])
			t.Check(tn >= tol-eps, "merge-kept", "the first vertex %v was kept although its turn is %v, tolerance %v", out[0], tn, tol)
		}
	}
	t.NonTrivialIf(len(out) < len(pts) && len(out) > 2)
	t.LabelIf(closed, "closed")
}

func repeats(pts []P) bool {
	seen := map[P]bool{}
	for i, p := range pts {
		if i == len(pts)-1 && p == pts[0] {
			continue
		}
		if seen[p] {
			return true
		}
		seen[p] = true
	}
	return false
}
