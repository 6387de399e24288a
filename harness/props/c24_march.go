package props

import (
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C24", Quick: 2500000, Thorough: 30000000,
		Rule: "a random field (noise, few levels, blobs, a plane) on a grid of 2..9 by 2..9 samples in a random box with a random threshold, traced soft or hard. Non-trivial: at least one grid cell holds a contour",
		Subs: []Sub{{"trace", 1, c24Trace}},
	})
}

type dseg struct{ a, b P }

func c24Trace(t *pbt.T) {
	unit, amp := 1.0, 1.0
	if t.P(1, 5) {
		unit, amp = t.Log(1e-3, 1e3), t.Log(1e-3, 1e3)
	}
	w, h := t.Log(0.5, 200)*unit, t.Log(0.5, 200)*unit
	bb := cp.BB{L: t.F(-100, 100) * unit, B: t.F(-100, 100) * unit}
	bb.R, bb.T = bb.L+w, bb.B+h
	nx, ny := t.Int(2, 9), t.Int(2, 9)
	if t.P(1, 60) {
		nx, ny = t.Int(2, 40), t.Int(2, 40)
		t.Label("many-samples")
	}
	field := make([]float64, nx*ny)
	thr := 0.5
	switch t.Weighted(3, 3, 2, 1) {
	case 0: // noise
		thr = t.Real(-1, 1)
		for i := range field {
			field[i] = t.Real(-1, 1)
		}
	case 1: // few levels, the threshold one of them or between
		thr = float64(t.Intn(5)) / 2
		for i := range field {
			field[i] = float64(t.Intn(3))
		}
	case 2: // blob
		c := P{t.Real(-1, 1), t.Real(-1, 1)}
		thr = t.Real(0.2, 1)
		for j := 0; j < ny; j++ {
			for i := 0; i < nx; i++ {
				field[j*nx+i] = c.Dist(P{2*float64(i)/float64(nx-1) - 1, 2*float64(j)/float64(ny-1) - 1})
			}
		}
	case 3: // plane
		gx, gy := t.Real(-1, 1), t.Real(-1, 1)
		thr = t.Real(-1, 1)
		for j := 0; j < ny; j++ {
			for i := 0; i < nx; i++ {
				field[j*nx+i] = gx*float64(i) + gy*float64(j)
			}
		}
	}
	thr *= amp
	for i := range field {
		field[i] *= amp
	}
	hard := t.Bool()
	collect := t.P(1, 4)
	t.Logf("box %v samples %dx%d threshold %v hard=%v field=%v", bb, nx, ny, thr, hard, field)
	tol := 1e-9 * (math.Abs(bb.L) + math.Abs(bb.B) + w + h)
	px := func(i int) float64 { return bb.L + w*float64(i)/float64(nx-1) }
	py := func(j int) float64 { return bb.B + h*float64(j)/float64(ny-1) }

	asked := make([]int, nx*ny)
	var got []dseg
	sample := func(p cp.Vector) float64 {
		i := int(math.Round((p.X - bb.L) / w * float64(nx-1)))
		j := int(math.Round((p.Y - bb.B) / h * float64(ny-1)))
		t.Check(i >= 0 && i < nx && j >= 0 && j < ny && math.Abs(p.X-px(i)) <= tol && math.Abs(p.Y-py(j)) <= tol,
			"sample-point", "sampled at %v, which is not on the grid", p)
		asked[j*nx+i]++
		return field[j*nx+i]
	}
	var handed *cp.PolyLineSet
	emit := func(v0, v1 cp.Vector, set *cp.PolyLineSet) {
		t.Check(handed == nil || handed == set, "segment-data", "the set handed to the segment function changed")
		handed = set
		got = append(got, dseg{g(v0), g(v1)})
		if collect {
			cp.PolyLineCollectSegment(v0, v1, set)
		}
	}
	trace := cp.MarchSoft
	if hard {
		trace = cp.MarchHard
	}
	set := trace(bb, int64(nx), int64(ny), thr, emit, sample)
	t.Check(set != nil && (handed == nil || set == handed), "segment-data", "the returned set is not the one handed to the segment function")
	for k, n := range asked {
		t.Check(n == 1, "sample-once", "grid point (%d,%d) sampled %d times", k%nx, k/nx, n)
	}

	// what each cell should give
	used := make([]bool, len(got))
	take := func(want []dseg) bool {
		var mine []int
		for _, s := range want {
			found := s.a.Dist(s.b) <= tol // a segment without length need not be there
			for k, x := range got {
				if !used[k] && x.a.Dist(s.a) <= tol && x.b.Dist(s.b) <= tol {
					used[k] = true
					mine = append(mine, k)
					found = true
					break
				}
			}
			if !found {
				for _, k := range mine {
					used[k] = false
				}
				return false
			}
		}
		return true
	}
	cells := 0
	for j := 0; j < ny-1; j++ {
		for i := 0; i < nx-1; i++ {
			// corners counter-clockwise
			v := [4]float64{field[j*nx+i], field[j*nx+i+1], field[(j+1)*nx+i+1], field[(j+1)*nx+i]}
			c := [4]P{{px(i), py(j)}, {px(i + 1), py(j)}, {px(i + 1), py(j + 1)}, {px(i), py(j + 1)}}
			mid := c[0].Lerp(c[2], 0.5)
			var out, in []P // crossings on the way round: leaving the inside, entering it
			var kind []bool
			var all []P
			for k := 0; k < 4; k++ {
				a, b := v[k] > thr, v[(k+1)%4] > thr
				if a == b {
					continue
				}
				x := 0.5
				if !hard {
					x = (thr - v[k]) / (v[(k+1)%4] - v[k])
				}
				p := c[k].Lerp(c[(k+1)%4], x)
				all, kind = append(all, p), append(kind, a)
				if a {
					out = append(out, p)
				} else {
					in = append(in, p)
				}
			}
			join := func(a, b P) []dseg {
				if hard && !(a.X == b.X || a.Y == b.Y) && (math.Abs(a.X-b.X) > tol && math.Abs(a.Y-b.Y) > tol) {
					return []dseg{{a, mid}, {mid, b}}
				}
				return []dseg{{a, b}}
			}
			switch len(all) {
			case 2:
				cells++
				want := join(out[0], in[0])
				t.Check(take(want), "contour", "cell (%d,%d) with corners %v should give %v, which is not among %v", i, j, v, want, got)
			case 4:
				cells++
				t.Label("saddle")
				// either pairing of neighbouring crossings is a contour
				var one, two []dseg
				for k := 0; k < 4; k++ {
					if !kind[k] {
						continue
					}
					one = append(one, join(all[k], all[(k+1)%4])...)
					two = append(two, join(all[k], all[(k+3)%4])...)
				}
				// with crossings in the corners a pairing may have no length; try the longer first
				if length(two) > length(one) {
					one, two = two, one
				}
				t.Check(take(one) || take(two), "contour", "saddle cell (%d,%d) with corners %v should give %v or %v, but neither is among %v", i, j, v, one, two, got)
			}
		}
	}
	for k, x := range got {
		t.Check(used[k], "contour", "segment %v belongs to no cell's contour", x)
	}
	t.NonTrivialIf(cells > 0)
	t.LabelIf(hard, "hard")
	if collect {
		t.Label("collected")
		checkCollected(t, got, set)
		for _, l := range set.Lines {
			if l.IsClosed() || !uniqueEnds(got) {
				continue
			}
			for _, e := range []P{g(l.Verts[0]), g(l.Verts[len(l.Verts)-1])} {
				onBorder := math.Abs(e.X-bb.L) <= tol || math.Abs(e.X-bb.R) <= tol || math.Abs(e.Y-bb.B) <= tol || math.Abs(e.Y-bb.T) <= tol
				t.Check(onBorder, "contour-closed", "the contour ends at %v, inside the box", e)
			}
		}
	}
}

func length(s []dseg) float64 {
	l := 0.0
	for _, x := range s {
		l += x.a.Dist(x.b)
	}
	return l
}
