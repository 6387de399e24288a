package props

import (
	"fmt"
	"math"

	"cpverif/geo"
	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

type P = geo.P

func g(v cp.Vector) P { return P{v.X, v.Y} }
func v(p P) cp.Vector { return cp.Vector{X: p.X, Y: p.Y} }
func gb(b cp.BB) geo.Box {
	return geo.Box{L: b.L, B: b.B, R: b.R, T: b.T}
}

// near compares with a relative and absolute tolerance.
func near(a, b, tol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return false
	}
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

func nearP(a, b P, tol float64) bool {
	if !a.Finite() || !b.Finite() {
		return false
	}
	return a.Dist(b) <= tol*(1+math.Max(a.Len(), b.Len()))
}

func nearV(a, b cp.Vector, tol float64) bool { return nearP(g(a), g(b), tol) }

func finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

// core reads a shape's current world geometry: transforming the local
// definition ourselves is done by the checks that own that property.
func core(s *cp.Shape) geo.Shape {
	switch c := s.Class.(type) {
	case *cp.Circle:
		return geo.Shape{Core: []P{g(c.TransformC())}, R: c.Radius()}
	case *cp.Segment:
		return geo.Shape{Core: []P{g(c.TransformA()), g(c.TransformB())}, R: c.Radius()}
	case *cp.PolyShape:
		var pts []P
		for i := 0; i < c.Count(); i++ {
			pts = append(pts, g(c.TransformVert(i)))
		}
		return geo.Shape{Core: pts, R: c.Radius()}
	}
	panic("unknown shape class")
}

// Def is a shape as generated, in body-local coordinates.
type Def struct {
	Kind string // circle, segment, poly, box
	Pts  []P    // centre, ends, or counter-clockwise vertices
	R    float64
	W, H float64
}

func (d Def) String() string {
	switch d.Kind {
	case "circle":
		return fmt.Sprintf("circle(r=%v at %v)", d.R, d.Pts[0])
	case "segment":
		return fmt.Sprintf("segment(%v-%v r=%v)", d.Pts[0], d.Pts[1], d.R)
	case "box":
		return fmt.Sprintf("box(%vx%v r=%v)", d.W, d.H, d.R)
	}
	return fmt.Sprintf("poly(%v r=%v)", d.Pts, d.R)
}

// Make builds the library's shape.
func (d Def) Make(b *cp.Body) *cp.Shape {
	switch d.Kind {
	case "circle":
		return cp.NewCircle(b, d.R, v(d.Pts[0]))
	case "segment":
		return cp.NewSegment(b, v(d.Pts[0]), v(d.Pts[1]), d.R)
	case "box":
		return cp.NewBox(b, d.W, d.H, d.R)
	}
	vs := vecs(d.Pts)
	return cp.NewPolyShapeRaw(b, len(vs), vs, d.R)
}

// At places the definition in the world: body position p, angle a (no centre-of-gravity offset).
func (d Def) At(p P, a float64) geo.Shape {
	s := geo.Shape{R: d.R}
	for _, q := range d.Pts {
		s.Core = append(s.Core, q.Rot(a).Add(p))
	}
	return s
}

func vecs(ps []P) []cp.Vector {
	out := make([]cp.Vector, len(ps))
	for i, p := range ps {
		out[i] = v(p)
	}
	return out
}

// genPoly makes a strictly convex counter-clockwise polygon of the given size.
func genPoly(t *pbt.T, size float64, maxN int) []P {
	for try := 0; try < 6; try++ {
		n := t.Int(3, maxN)
		var pts []P
		switch t.Intn(4) {
		case 0: // lattice points
			k := math.Max(1, math.Floor(size))
			for i := 0; i < n+2; i++ {
				pts = append(pts, P{float64(t.Int(-int(k), int(k))), float64(t.Int(-int(k), int(k)))})
			}
		case 1: // on an ellipse: all n vertices kept
			sx, sy := t.Real(0.3, 1)*size, t.Real(0.3, 1)*size
			for i := 0; i < n; i++ {
				a := 2 * math.Pi * (float64(i) + t.Real(0, 0.7)) / float64(n)
				pts = append(pts, P{sx * math.Cos(a), sy * math.Sin(a)})
			}
		default:
			for i := 0; i < n+1; i++ {
				pts = append(pts, P{t.F(-size, size), t.F(-size, size)})
			}
		}
		h := geo.Hull(pts)
		if niceHull(h, size) {
			return h
		}
	}
	return []P{{-size, -size}, {size, -size}, {size, size}, {-size, size}}
}

// niceHull keeps polygons whose edges and corners are not degenerate.
func niceHull(h []P, size float64) bool {
	if len(h) < 3 || geo.Area(h) < 0.02*size*size {
		return false
	}
	for i := range h {
		a, b, c := h[i], h[(i+1)%len(h)], h[(i+2)%len(h)]
		if a.Dist(b) < 0.05*size {
			return false
		}
		if b.Sub(a).Unit().Cross(c.Sub(b).Unit()) < 0.02 {
			return false
		}
	}
	return true
}

// genDef makes a shape of roughly the given size. radius: may polygons be bevelled.
func genDef(t *pbt.T, size float64) Def {
	switch t.Weighted(4, 3, 3, 3) {
	case 0:
		d := Def{Kind: "circle", R: size * t.F(0.25, 1), Pts: []P{{}}}
		if d.R == 0 {
			d.R = size * 0.5
		}
		if t.P(1, 3) {
			d.Pts[0] = P{t.F(-size, size), t.F(-size, size)}
		}
		return d
	case 1:
		d := Def{Kind: "segment", R: genRadius(t, size)}
		a := P{t.F(-size, size), t.F(-size, size)}
		b := P{t.F(-size, size), t.F(-size, size)}
		if t.Bool() {
			b = a.Mul(-1)
		}
		if a.Dist(b) < 0.2*size {
			a, b = P{-size, 0}, P{size, 0}
		}
		d.Pts = []P{a, b}
		return d
	case 2:
		w, h := size*t.F(0.3, 2), size*t.F(0.3, 2)
		d := Def{Kind: "box", W: w, H: h, R: genRadius(t, size)}
		d.Pts = []P{{-w / 2, -h / 2}, {w / 2, -h / 2}, {w / 2, h / 2}, {-w / 2, h / 2}}
		return d
	}
	return Def{Kind: "poly", Pts: genPoly(t, size, 8), R: genRadius(t, size)}
}

// genDefMany is genDef with some polygons of very many corners.
func genDefMany(t *pbt.T, size float64) Def {
	if !t.P(1, 12) {
		return genDef(t, size)
	}
	n := t.Int(12, 60)
	if t.P(1, 8) {
		n = t.Int(250, 300)
	}
	sx, sy := t.Real(0.5, 1)*size, t.Real(0.5, 1)*size
	if t.Bool() {
		sy = sx
	}
	d := Def{Kind: "poly", R: genRadius(t, size)}
	for i := 0; i < n; i++ {
		a := 2 * math.Pi * float64(i) / float64(n)
		d.Pts = append(d.Pts, P{sx * math.Cos(a), sy * math.Sin(a)})
	}
	t.Label("many corners")
	return d
}

// genSize is the size of a shape in whatever unit a game measures lengths.
func genSize(t *pbt.T) float64 {
	if t.P(1, 4) {
		return t.Log(0.005, 5000)
	}
	return t.Log(0.2, 50)
}

func genRadius(t *pbt.T, size float64) float64 {
	if t.Bool() {
		return 0
	}
	return size * t.F(0.05, 0.5)
}

func genP(t *pbt.T, size float64) P { return P{t.F(-size, size), t.F(-size, size)} }

// wide is mostly 1, sometimes a factor that makes a quantity very small or large.
func wide(t *pbt.T) float64 {
	if t.P(1, 5) {
		return t.Log(1e-5, 1e3)
	}
	return 1
}

func fmtBody(b *cp.Body) string {
	return fmt.Sprintf("p=%v a=%v v=%v w=%v", b.Position(), b.Angle(), b.Velocity(), b.AngularVelocity())
}
