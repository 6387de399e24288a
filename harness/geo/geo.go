// Package geo is plane geometry written independently of the library under
// test: every oracle of the checks is built on it.
package geo

import (
	"math"
	"sort"
)

type P struct{ X, Y float64 }

func (a P) Add(b P) P             { return P{a.X + b.X, a.Y + b.Y} }
func (a P) Sub(b P) P             { return P{a.X - b.X, a.Y - b.Y} }
func (a P) Mul(s float64) P       { return P{a.X * s, a.Y * s} }
func (a P) Dot(b P) float64       { return a.X*b.X + a.Y*b.Y }
func (a P) Cross(b P) float64     { return a.X*b.Y - a.Y*b.X }
func (a P) Len() float64          { return math.Hypot(a.X, a.Y) }
func (a P) Dist(b P) float64      { return a.Sub(b).Len() }
func (a P) Left() P               { return P{-a.Y, a.X} }
func (a P) Lerp(b P, t float64) P { return P{a.X + (b.X-a.X)*t, a.Y + (b.Y-a.Y)*t} }
func (a P) Rot(angle float64) P {
	s, c := math.Sincos(angle)
	return P{a.X*c - a.Y*s, a.X*s + a.Y*c}
}
func (a P) Unit() P {
	l := a.Len()
	if l == 0 {
		return P{}
	}
	return a.Mul(1 / l)
}
func (a P) Finite() bool { return fin(a.X) && fin(a.Y) }
func fin(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

// Shape is a convex core (1 point, 2 points, or a counter-clockwise polygon) fattened by R.
type Shape struct {
	Core []P
	R    float64
}

// ClosestOnSeg gives the point of segment ab closest to p.
func ClosestOnSeg(p, a, b P) P {
	d := b.Sub(a)
	l := d.Dot(d)
	if l == 0 {
		return a
	}
	t := p.Sub(a).Dot(d) / l
	if t <= 0 {
		return a
	}
	if t >= 1 {
		return b
	}
	return a.Add(d.Mul(t))
}

// Inside reports whether p is in the closed convex counter-clockwise polygon.
func Inside(core []P, p P) bool {
	if len(core) < 3 {
		return false
	}
	for i := range core {
		a, b := core[i], core[(i+1)%len(core)]
		if b.Sub(a).Cross(p.Sub(a)) < 0 {
			return false
		}
	}
	return true
}

// CoreSigned is the signed distance of p to the core, negative inside a
// polygon, and the closest point of the core's boundary.
func CoreSigned(core []P, p P) (float64, P) {
	best := math.Inf(1)
	var at P
	if len(core) == 1 {
		return p.Dist(core[0]), core[0]
	}
	n := len(core)
	if n == 2 {
		n = 1
	}
	for i := 0; i < n; i++ {
		c := ClosestOnSeg(p, core[i], core[(i+1)%len(core)])
		if d := p.Dist(c); d < best {
			best, at = d, c
		}
	}
	if Inside(core, p) {
		return -best, at
	}
	return best, at
}

// CoreDist is the distance of p to the filled core.
func CoreDist(core []P, p P) float64 {
	d, _ := CoreSigned(core, p)
	return math.Max(d, 0)
}

// Signed is the signed distance of p to the fattened shape's surface.
func (s Shape) Signed(p P) float64 {
	d, _ := CoreSigned(s.Core, p)
	return d - s.R
}

// Hull is the convex hull, counter-clockwise, without collinear points.
func Hull(pts []P) []P {
	q := append([]P(nil), pts...)
	sort.Slice(q, func(i, j int) bool {
		if q[i].X != q[j].X {
			return q[i].X < q[j].X
		}
		return q[i].Y < q[j].Y
	})
	u := q[:0]
	for i, p := range q {
		if i == 0 || p != u[len(u)-1] {
			u = append(u, p)
		}
	}
	q = u
	if len(q) < 3 {
		return q
	}
	var h []P
	for _, p := range q {
		for len(h) >= 2 && h[len(h)-1].Sub(h[len(h)-2]).Cross(p.Sub(h[len(h)-2])) <= 0 {
			h = h[:len(h)-1]
		}
		h = append(h, p)
	}
	lo := len(h) + 1
	for i := len(q) - 2; i >= 0; i-- {
		p := q[i]
		for len(h) >= lo && h[len(h)-1].Sub(h[len(h)-2]).Cross(p.Sub(h[len(h)-2])) <= 0 {
			h = h[:len(h)-1]
		}
		h = append(h, p)
	}
	return h[:len(h)-1]
}

// SignedSep is the distance between the cores, or minus the penetration depth.
func SignedSep(a, b []P) float64 {
	if len(a) == 1 {
		d, _ := CoreSigned(b, a[0])
		return d
	}
	if len(b) == 1 {
		d, _ := CoreSigned(a, b[0])
		return d
	}
	// the separation along any direction bounds the answer from below, and when
	// the cores overlap it is attained at an edge's normal; the edges' own
	// directions matter for segments in line
	sep := math.Inf(-1)
	for _, c := range [][]P{a, b} {
		for i := range c {
			e := c[(i+1)%len(c)].Sub(c[i]).Unit()
			for _, n := range []P{e, e.Left(), e.Mul(-1), e.Left().Mul(-1)} {
				sep = math.Max(sep, SepAlong(a, b, n))
			}
		}
	}
	if sep <= 0 {
		return sep
	}
	d := math.Inf(1)
	for _, p := range a {
		x, _ := CoreSigned(b, p)
		d = math.Min(d, math.Abs(x))
	}
	for _, p := range b {
		x, _ := CoreSigned(a, p)
		d = math.Min(d, math.Abs(x))
	}
	return d
}

// Gap is the signed separation of the fattened shapes.
func Gap(a, b Shape) float64 { return SignedSep(a.Core, b.Core) - a.R - b.R }

// SepAlong is the separation of the cores seen along unit n, from a to b.
func SepAlong(a, b []P, n P) float64 {
	return -Support(b, n.Mul(-1)) - Support(a, n)
}

// Support is max p.n over the core.
func Support(a []P, n P) float64 {
	m := math.Inf(-1)
	for _, p := range a {
		m = math.Max(m, p.Dot(n))
	}
	return m
}

// Box is an axis-aligned box.
type Box struct{ L, B, R, T float64 }

// Bounds is the tight box of the fattened shape.
func (s Shape) Bounds() Box {
	b := Box{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}
	for _, p := range s.Core {
		b.L = math.Min(b.L, p.X)
		b.B = math.Min(b.B, p.Y)
		b.R = math.Max(b.R, p.X)
		b.T = math.Max(b.T, p.Y)
	}
	return Box{b.L - s.R, b.B - s.R, b.R + s.R, b.T + s.R}
}

func (a Box) Intersects(b Box) bool {
	return a.L <= b.R && b.L <= a.R && a.B <= b.T && b.B <= a.T
}

// Gap is positive when the boxes are apart, negative when they overlap.
func (a Box) Gap(b Box) float64 {
	return math.Max(math.Max(b.L-a.R, a.L-b.R), math.Max(b.B-a.T, a.B-b.T))
}

// Ray gives the first t in [0,1] at which the point a+(b-a)t is within rsum of
// the core, whether there is one, and the least distance over the segment.
func Ray(core []P, rsum float64, a, b P) (t float64, hit bool, least float64) {
	f := func(t float64) float64 { return CoreDist(core, a.Lerp(b, t)) - rsum }
	if f(0) <= 0 {
		return 0, true, f(0)
	}
	// f is convex: find its least point
	lo, hi := 0.0, 1.0
	for i := 0; i < 200; i++ {
		m1, m2 := lo+(hi-lo)/3, hi-(hi-lo)/3
		f1, f2 := f(m1), f(m2)
		if f1 <= f2 {
			hi = m2
		} else {
			lo = m1
		}
		if f1 <= 0 && f1 <= f2 {
			hi = m1
			lo = m1
			break
		}
		if f2 <= 0 && f2 < f1 {
			lo, hi = m2, m2
			break
		}
	}
	m := (lo + hi) / 2
	least = f(m)
	for _, x := range []float64{0, 1} {
		least = math.Min(least, f(x))
	}
	if f(m) > 0 {
		if f(1) <= 0 {
			m = 1
		} else {
			return 1, false, least
		}
	}
	lo, hi = 0, m
	for i := 0; i < 100; i++ {
		c := (lo + hi) / 2
		if f(c) <= 0 {
			hi = c
		} else {
			lo = c
		}
	}
	return hi, true, least
}

// SegDist is the least distance between segment ab and the filled core.
func SegDist(core []P, a, b P) float64 {
	return math.Max(SignedSep(core, []P{a, b}), 0)
}

// Area of a simple polygon by the shoelace formula, positive when counter-clockwise.
func Area(v []P) float64 {
	s := 0.0
	for i := 1; i+1 < len(v); i++ {
		s += v[i].Sub(v[0]).Cross(v[i+1].Sub(v[0])) / 2
	}
	return s
}

// Centroid by fan triangulation.
func Centroid(v []P) P {
	var c P
	s := 0.0
	for i := 1; i+1 < len(v); i++ {
		w := v[i].Sub(v[0]).Cross(v[i+1].Sub(v[0])) / 2
		m := v[0].Add(v[i]).Add(v[i+1]).Mul(1.0 / 3)
		c = c.Add(m.Mul(w))
		s += w
	}
	return c.Mul(1 / s)
}

// SecondMoment is the integral of |p-o|^2 over the polygon, by triangles.
func SecondMoment(v []P, o P) float64 {
	s := 0.0
	for i := 1; i+1 < len(v); i++ {
		a, b, c := v[0].Sub(o), v[i].Sub(o), v[i+1].Sub(o)
		w := b.Sub(a).Cross(c.Sub(a)) / 2
		// edge-midpoint rule is exact for quadratics
		m1, m2, m3 := a.Lerp(b, 0.5), b.Lerp(c, 0.5), c.Lerp(a, 0.5)
		s += w / 3 * (m1.Dot(m1) + m2.Dot(m2) + m3.Dot(m3))
	}
	return s
}
