package props

import (
	"fmt"
	"math"
	"sort"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C30", Quick: 80000, Thorough: 900000,
		Rule: "histories of edits and steps with every shape and joint kind, sleeping, refused contacts and both indexes, drawn at random moments (also inside callbacks) by a drawer that writes every call down; the calls are matched one by one with the shapes', joints' and contacts' own places, and the history is compared with one that is never drawn; non-trivial: a drawing with a contact, or with a sleeping body, or with three or more joints",
		Subs: []Sub{{"single", 3, c30Single}, {"history", 4, c30History}, {"undrawn", 2, c30Undrawn}},
	})
}

type dCall struct {
	kind          string
	pts           []cp.Vector
	angle, r      float64
	outline, fill cp.FColor
	data          interface{}
	n             int
}

func (c dCall) String() string {
	return fmt.Sprintf("%s pts=%v angle=%v r=%v outline=%v fill=%v data=%v n=%d", c.kind, c.pts, c.angle, c.r, c.outline, c.fill, c.data, c.n)
}

// pen writes down what it is asked to draw.
type pen struct {
	calls   []dCall
	data    interface{}
	odd     string
	colours map[*cp.Shape]cp.FColor
}

func (p *pen) DrawCircle(pos cp.Vector, angle, radius float64, outline, fill cp.FColor, data interface{}) {
	p.calls = append(p.calls, dCall{kind: "circle", pts: []cp.Vector{pos}, angle: angle, r: radius, outline: outline, fill: fill, data: data})
}
func (p *pen) DrawSegment(a, b cp.Vector, fill cp.FColor, data interface{}) {
	p.calls = append(p.calls, dCall{kind: "line", pts: []cp.Vector{a, b}, fill: fill, data: data})
}
func (p *pen) DrawFatSegment(a, b cp.Vector, radius float64, outline, fill cp.FColor, data interface{}) {
	p.calls = append(p.calls, dCall{kind: "segment", pts: []cp.Vector{a, b}, r: radius, outline: outline, fill: fill, data: data})
}
func (p *pen) DrawPolygon(count int, verts []cp.Vector, radius float64, outline, fill cp.FColor, data interface{}) {
	p.calls = append(p.calls, dCall{kind: "poly", pts: append([]cp.Vector(nil), verts...), r: radius, outline: outline, fill: fill, data: data, n: count})
}
func (p *pen) DrawDot(size float64, pos cp.Vector, fill cp.FColor, data interface{}) {
	p.calls = append(p.calls, dCall{kind: "dot", pts: []cp.Vector{pos}, r: size, fill: fill, data: data})
}
func (p *pen) Flags() uint {
	return cp.DRAW_SHAPES | cp.DRAW_CONSTRAINTS | cp.DRAW_COLLISION_POINTS
}
func (p *pen) OutlineColor() cp.FColor { return cp.FColor{R: 0.1, G: 0.2, B: 0.3, A: 0.4} }
func (p *pen) ShapeColor(s *cp.Shape, data interface{}) cp.FColor {
	if data != p.data {
		p.odd = fmt.Sprintf("ShapeColor was given data %v", data)
	}
	c := cp.FColor{R: float32(s.HashId()), G: 1, A: 0.5}
	if ws, ok := s.UserData.(*WShape); ok {
		c.R, c.B = float32(ws.id), 7
	}
	return c
}
func (p *pen) ConstraintColor() cp.FColor     { return cp.FColor{R: 2, G: 3, B: 4, A: 1} }
func (p *pen) CollisionPointColor() cp.FColor { return cp.FColor{R: 5, G: 6, B: 7, A: 0.7} }
func (p *pen) Data() interface{}              { return p.data }

func newPen() *pen { return &pen{data: &struct{ x int }{1}} }

// checkShapeCall says that one call shows a shape where it is.
func checkShapeCall(t *pbt.T, p *pen, s *cp.Shape, c dCall, want Def, at []P, angle float64, checkAngle bool) {
	t.Check(c.outline == p.OutlineColor(), "outline-colour", "%v: outline, the drawer chose %v", c, p.OutlineColor())
	t.Check(c.fill == p.ShapeColor(s, p.data), "shape-colour", "%v: fill, the drawer chose %v", c, p.ShapeColor(s, p.data))
	t.Check(c.data == p.data, "drawer-data", "%v: not the drawer's data", c)
	t.Check(near(c.r, want.R, 1e-12), "draw-radius", "%v: the shape is %v", c, want)
	kind := map[string]string{"circle": "circle", "segment": "segment", "poly": "poly", "box": "poly"}[want.Kind]
	t.Check(c.kind == kind, "draw-kind", "%v drawn for %v", c, want)
	t.Check(len(c.pts) == len(at), "draw-count", "%v drawn for %v", c, want)
	if kind == "circle" {
		t.Check(nearP(g(c.pts[0]), at[0], 1e-9), "draw-place", "circle drawn at %v, it is at %v", c.pts[0], at[0])
		if checkAngle {
			t.Check(near(c.angle, angle, 1e-12), "draw-angle", "circle drawn at angle %v, its body's is %v", c.angle, angle)
		}
		return
	}
	if kind == "poly" {
		t.Check(c.n == len(c.pts), "draw-count", "polygon drawn with count %d and %d corners", c.n, len(c.pts))
	}
	// the same points in the same order, from any start; a segment either way round
	n := len(at)
	ok := false
	for k := 0; k < n && !ok; k++ {
		ok = true
		for i := range at {
			if !nearP(g(c.pts[(i+k)%n]), at[i], 1e-9) {
				ok = false
				break
			}
		}
	}
	t.Check(ok, "draw-place", "%v drawn for a %s at %v", c, want.Kind, at)
}

// checkJointCalls says that the calls show a joint where its anchors are.
func checkJointCalls(t *pbt.T, p *pen, c *cp.Constraint, a, b *cp.Body, calls []dCall) {
	var dots, lines []dCall
	for _, x := range calls {
		t.Check(x.fill == p.ConstraintColor(), "joint-colour", "%v: the drawer chose %v", x, p.ConstraintColor())
		t.Check(x.data == p.data, "drawer-data", "%v: not the drawer's data", x)
		switch x.kind {
		case "dot":
			t.Check(x.r > 0, "dot-size", "%v", x)
			dots = append(dots, x)
		case "line":
			lines = append(lines, x)
		default:
			t.Failf("joint-shape", "a joint drew %v", x)
		}
	}
	A := func(q cp.Vector) P { return g(a.LocalToWorld(q)) }
	B := func(q cp.Vector) P { return g(b.LocalToWorld(q)) }
	tol := 1e-9
	wantDots := func(ps ...P) {
		t.Check(len(dots) == len(ps), "joint-dots", "%T drew %d dots, want %d", c.Class, len(dots), len(ps))
		used := make([]bool, len(dots))
		for _, q := range ps {
			found := false
			for i, d := range dots {
				if !used[i] && nearP(g(d.pts[0]), q, tol) {
					used[i], found = true, true
					break
				}
			}
			t.Check(found, "joint-dots", "%T drew dots %v, its anchors are at %v", c.Class, dots, ps)
		}
	}
	wantLine := func(q, r P) {
		t.Check(len(lines) == 1, "joint-lines", "%T drew %d lines", c.Class, len(lines))
		x, y := g(lines[0].pts[0]), g(lines[0].pts[1])
		t.Check(nearP(x, q, tol) && nearP(y, r, tol) || nearP(x, r, tol) && nearP(y, q, tol), "joint-lines", "%T drew a line %v-%v, want %v-%v", c.Class, x, y, q, r)
	}
	switch j := c.Class.(type) {
	case *cp.PinJoint:
		wantDots(A(j.AnchorA), B(j.AnchorB))
		wantLine(A(j.AnchorA), B(j.AnchorB))
	case *cp.SlideJoint:
		wantDots(A(j.AnchorA), B(j.AnchorB))
		wantLine(A(j.AnchorA), B(j.AnchorB))
	case *cp.PivotJoint:
		wantDots(A(j.AnchorA), B(j.AnchorB))
		t.Check(len(lines) == 0, "joint-lines", "a pivot drew lines %v", lines)
	case *cp.GrooveJoint:
		wantDots(B(j.AnchorB))
		wantLine(A(j.GrooveA), A(j.GrooveB))
	case *cp.DampedSpring:
		p, q := A(j.AnchorA), B(j.AnchorB)
		wantDots(p, q)
		L := p.Dist(q)
		if L < 1e-6 {
			// the coils of a spring without length may lie any way, but they are where the spring is
			for _, l := range lines {
				for _, x := range l.pts {
					t.Check(g(x).Dist(p) < 20, "spring-place", "a spring with both anchors at %v drew a line at %v", p, x)
				}
			}
			t.Label("spring-without-length")
			return
		}
		// a line of coils from anchor to anchor
		t.Check(len(lines) >= 3, "spring-coils", "a spring drew %d lines", len(lines))
		dir := q.Sub(p).Unit()
		wide, last := 0.0, 0.0
		for i, l := range lines {
			x, y := g(l.pts[0]), g(l.pts[1])
			if i == 0 {
				t.Check(nearP(x, p, tol), "spring-ends", "a spring from %v starts at %v", p, x)
			} else {
				t.Check(nearP(x, g(lines[i-1].pts[1]), tol), "spring-ends", "a spring's coils are not connected: %v then %v", lines[i-1].pts[1], x)
			}
			if i == len(lines)-1 {
				t.Check(nearP(y, q, tol), "spring-ends", "a spring to %v ends at %v", q, y)
			}
			along := y.Sub(p).Dot(dir)
			t.Check(along >= last-1e-9*(1+p.Len()) && along <= L+1e-9*(1+p.Len()+L), "spring-coils", "a spring's line runs backwards: %v of %v after %v", along, L, last)
			last = along
			wide = math.Max(wide, math.Abs(y.Sub(p).Cross(dir)))
		}
		t.Check(wide > 1 && wide < 20, "spring-coils", "a spring's coils are %v wide", wide)
	case *cp.GearJoint, *cp.SimpleMotor, *cp.DampedRotarySpring, *cp.RotaryLimitJoint, *cp.RatchetJoint:
		t.Check(len(calls) == 0, "joint-rotary", "%T has no place, but drew %v", c.Class, calls)
	}
	t.Label(fmt.Sprintf("%T", c.Class))
}

func c30Single(t *pbt.T) {
	sp := cp.NewSpace()
	a := genBody(t, sp, 0, t.Intn(3), 20, 10)
	b := genBody(t, sp, 1, cp.BODY_DYNAMIC, 20, 10)
	p := newPen()
	if t.Bool() {
		p.data = t.Int(0, 5)
	}
	if t.P(1, 8) {
		p.data = nil
	}
	t.List(1, 4, func(int) {
		x := a
		if t.Bool() {
			x = b
		}
		d := genDef(t, t.Log(0.1, 20))
		s := d.Make(x.b)
		if t.Bool() {
			sp.AddShape(s)
		} else {
			s.CacheBB()
		}
		if t.Bool() {
			x.b.SetPosition(v(genP(t, 50)))
			x.b.SetAngle(t.Angle() * float64(t.Int(1, 4)))
			s.CacheBB()
		}
		p.calls = nil
		cp.DrawShape(s, p)
		t.Check(len(p.calls) == 1, "draw-once", "DrawShape made %d calls: %v", len(p.calls), p.calls)
		t.Check(p.odd == "", "drawer-data", "%s", p.odd)
		var at []P
		for _, q := range d.Pts {
			at = append(at, g(x.b.LocalToWorld(v(q))))
		}
		checkShapeCall(t, p, s, p.calls[0], d, at, x.b.Angle(), true)
		t.Label("shape:" + d.Kind)
	})
	all := append(append(append([]string(nil), positional...), rotary...), springs...)
	t.List(1, 4, func(int) {
		j := genJoint(t, all[t.Intn(len(all))], a, b)
		if t.Bool() {
			sp.AddConstraint(j.c)
		}
		if t.P(1, 3) {
			b.b.SetPosition(v(genP(t, 50)))
			b.b.SetAngle(t.Angle())
		}
		if t.P(1, 3) {
			q := v(genP(t, 5))
			switch c := j.c.Class.(type) {
			case *cp.PinJoint:
				c.AnchorA = q
			case *cp.SlideJoint:
				c.AnchorB = q
			case *cp.PivotJoint:
				c.AnchorA = q
			case *cp.GrooveJoint:
				c.GrooveA = q
			case *cp.DampedSpring:
				c.AnchorB = q
			}
		}
		if c, ok := j.c.Class.(*cp.DampedSpring); ok && t.P(1, 4) {
			// both anchors at one place
			a.b.SetPosition(cp.Vector{})
			b.b.SetPosition(cp.Vector{})
			c.AnchorA, c.AnchorB = cp.Vector{}, cp.Vector{}
		}
		p.calls = nil
		cp.DrawConstraint(j.c, p)
		checkJointCalls(t, p, j.c, a.b, b.b, p.calls)
	})
	t.NonTrivial()
}

// c30World builds a world whose joints are of every kind.
func c30World(t *pbt.T) *World {
	w := newWorld(t, WCfg{Rogues: true, Joints: true, Filters: t.P(1, 3), Sensors: true, Retype: t.P(1, 2), Kinematic: true, Mutate: true, Hash: t.P(1, 3), Handlers: 2, Sleep: t.P(2, 3)})
	w.decide = func(kind byte, a, b *WShape, arb *cp.Arbiter) bool { return w.chance(kind, a, b, 9, 10) }
	w.populate()
	return w
}

func (w *World) extraJoint() {
	t := w.t
	a := w.pickBody(func(b *WBody) bool { return b.typ == cp.BODY_DYNAMIC && b.in })
	if a == nil {
		return
	}
	b := w.pickBody(func(b *WBody) bool { return b != a && (b.in || b.rogue) })
	if b == nil || len(w.joints) > 10 {
		return
	}
	j := &WJoint{a: a, b: b, kind: 10 + t.Intn(5), collide: true}
	switch j.kind {
	case 10:
		j.c = cp.NewSlideJoint(a.b, b.b, v(genP(t, 1)), v(genP(t, 1)), 0, t.F(5, 30))
	case 11:
		m := g(a.b.WorldToLocal(b.b.Position()))
		j.c = cp.NewGrooveJoint(a.b, b.b, v(m.Sub(P{t.F(0.5, 3), 0})), v(m.Add(P{t.F(0.5, 3), 1})), v(genP(t, 0.5)))
	case 12:
		j.c = cp.NewSimpleMotor(a.b, b.b, t.F(-2, 2))
	case 13:
		j.c = cp.NewRatchetJoint(a.b, b.b, t.F(-1, 1), t.F(0.5, 1))
	case 14:
		r := b.b.Angle() - a.b.Angle()
		j.c = cp.NewRotaryLimitJoint(a.b, b.b, r-1, r+1)
	}
	j.c.SetMaxForce(1000)
	j.c.UserData = j
	w.joints = append(w.joints, j)
	t.Logf("joint kind %d %v-%v", j.kind, a, b)
	w.sp.AddConstraint(j.c)
	j.in = true
}

func key(l []dCall) string {
	var out []string
	for _, c := range l {
		out = append(out, c.String())
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

// c30Draw draws the whole space and accounts for every call.
func (w *World) c30Draw() {
	t := w.t
	p := newPen()
	before := w.snapshot()
	cp.DrawSpace(w.sp, p)
	w.checkSame("drawing", before, w.snapshot())
	t.Check(p.odd == "", "drawer-data", "%s", p.odd)
	left := p.calls
	// shapes
	var shapes, rest []dCall
	for _, c := range left {
		switch c.kind {
		case "circle", "segment", "poly":
			shapes = append(shapes, c)
		default:
			rest = append(rest, c)
		}
	}
	seen := map[int]bool{}
	for _, c := range shapes {
		id := int(c.fill.R)
		t.Check(c.fill.B == 7 && id < len(w.shapes) && w.shapes[id].in, "draw-removed", "%v: no such shape is in the space", c)
		ws := w.shapes[id]
		t.Check(!seen[id], "draw-once", "%v was drawn twice", ws)
		seen[id] = true
		fresh := sameGeo(ws.eff, ws.place())
		checkShapeCall(t, p, ws.s, c, Def{Kind: ws.d.Kind, R: ws.eff.R}, ws.eff.Core, ws.wb.b.Angle(), fresh)
	}
	for _, ws := range w.shapes {
		t.Check(!ws.in || seen[ws.id], "draw-missing", "%v is in the space but was not drawn", ws)
	}
	// joints: what DrawConstraint draws for each, which is checked on its own
	take := func(want []dCall, must bool, kind, what string) bool {
		pos := make([]int, 0, len(want))
		used := map[int]bool{}
		for _, x := range want {
			for i, c := range rest {
				if !used[i] && c.String() == x.String() {
					used[i] = true
					pos = append(pos, i)
					break
				}
			}
		}
		if len(pos) < len(want) {
			t.Check(!must, kind, "%s was not drawn: %v among %v", what, want, rest)
			return false
		}
		var keep []dCall
		for i, c := range rest {
			if !used[i] {
				keep = append(keep, c)
			}
		}
		rest = keep
		return true
	}
	asleep, joints, contacts := 0, 0, 0
	var resting []*WJoint
	for i, j := range w.joints {
		if !j.in {
			continue
		}
		joints++
		if j.a.b.IsSleeping() || j.b.b.IsSleeping() {
			resting = append(resting, j)
			continue
		}
		q := &pen{data: p.data}
		cp.DrawConstraint(j.c, q)
		if !c30Finite(q.calls) {
			t.Discard("a spring without length")
		}
		checkJointCalls(t, q, j.c, j.a.b, j.b.b, q.calls)
		take(q.calls, true, "joint-missing", fmt.Sprintf("joint %d (%T)", i, j.c.Class))
	}
	// contacts of bodies awake
	type end struct{ a, b P }
	var want, maybe []end
	done := map[*cp.Arbiter]bool{}
	for k := 0; k < 2*len(w.bodies); k++ { // first those awake
		wb, second := w.bodies[k%len(w.bodies)], k >= len(w.bodies)
		if wb.b.IsSleeping() {
			asleep++
		}
		// a body that was just made kinematic or static may keep its contacts until the next step
		sl := wb.b.IsSleeping() || wb.typ != cp.BODY_DYNAMIC
		wb.b.EachArbiter(func(arb *cp.Arbiter) {
			if done[arb] || sl && !second {
				return
			}
			done[arb] = true
			set := arb.ContactPointSet()
			n := g(set.Normal)
			for i := 0; i < set.Count; i++ {
				e := end{g(set.Points[i].PointA).Sub(n.Mul(2)), g(set.Points[i].PointB).Add(n.Mul(2))}
				if sl {
					maybe = append(maybe, e)
				} else {
					want = append(want, e)
				}
			}
		})
	}
	match := func(e end, must bool) {
		for i, c := range rest {
			if c.kind != "line" || c.fill != p.CollisionPointColor() {
				continue
			}
			x, y := g(c.pts[0]), g(c.pts[1])
			if nearP(x, e.a, 1e-9) && nearP(y, e.b, 1e-9) || nearP(x, e.b, 1e-9) && nearP(y, e.a, 1e-9) {
				t.Check(c.data == p.data, "drawer-data", "%v: not the drawer's data", c)
				rest = append(append([]dCall(nil), rest[:i]...), rest[i+1:]...)
				contacts++
				return
			}
		}
		t.Check(!must, "contact-missing", "a contact from %v to %v was not drawn, left: %v", e.a, e.b, rest)
	}
	for _, e := range want {
		match(e, true)
	}
	for _, e := range maybe {
		match(e, false)
	}
	for _, j := range resting {
		q := &pen{data: p.data}
		cp.DrawConstraint(j.c, q)
		take(q.calls, false, "", "")
	}
	t.Check(len(rest) == 0, "draw-extra", "drawn for nothing: %v", rest)
	t.NonTrivialIf(asleep > 0 || joints >= 3 || contacts > 0)
	t.LabelIf(asleep > 0, "asleep")
	t.LabelIf(contacts > 0, "contacts")
	t.Label("drawings")
}

func c30Finite(l []dCall) bool {
	for _, c := range l {
		for _, q := range c.pts {
			if !g(q).Finite() {
				return false
			}
		}
	}
	return true
}

func c30History(t *pbt.T) {
	w := c30World(t)
	t.List(3, 40, func(int) {
		switch t.Weighted(8, 3, 2) {
		case 0:
			w.Step()
			if t.P(2, 3) {
				w.c30Draw()
			}
		case 1:
			w.Edit()
			if t.P(1, 3) {
				w.c30Draw()
			}
		case 2:
			w.extraJoint()
		}
	})
	w.c30Draw()
}

// c30Undrawn plays a history with and without drawing.
func c30Undrawn(t *pbt.T) {
	play := func(t *pbt.T, draw bool) (out []string) {
		w := c30World(t)
		if draw {
			w.onEvent = func(kind byte, a, b *WShape, arb *cp.Arbiter) {
				if w.chance('d', a, b, 1, 4) {
					cp.DrawSpace(w.sp, newPen())
				}
			}
		}
		t.List(3, 30, func(int) {
			switch t.Weighted(8, 3, 2) {
			case 0:
				w.Step()
			case 1:
				w.Edit()
			case 2:
				w.extraJoint()
			}
			if draw {
				cp.DrawSpace(w.sp, newPen())
			}
			out = append(out, fmt.Sprint(w.snapshot(), len(w.ev)))
		})
		return
	}
	m := t.Mark()
	one := play(t, false)
	two := play(t.Again(m), true)
	t.Check(len(one) == len(two), "draw-changes", "a drawn history went on for %d turns, undrawn for %d", len(two), len(one))
	for i := range one {
		t.Check(one[i] == two[i], "draw-changes", "turn %d: drawn\n%s\nundrawn\n%s", i, two[i], one[i])
	}
	t.NonTrivialIf(len(one) > 5)
}
