package props

import (
	"fmt"
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

// PB is a body used in a physics check.
type PB struct {
	b    *cp.Body
	id   int
	typ  int
	rest bool // not added to the space: never moves by itself
}

func (x *PB) String() string { return fmt.Sprintf("body%d", x.id) }

// St is a body's state, about its centre of gravity.
type St struct {
	c, v, f    P
	a, w, t    float64
	m, i       float64
	mInv, iInv float64
	cog        P
}

func snap(b *cp.Body) St {
	s := St{c: g(b.LocalToWorld(b.CenterOfGravity())), v: g(b.Velocity()), f: g(b.Force()), a: b.Angle(), w: b.AngularVelocity(), t: b.Torque(), m: b.Mass(), i: b.Moment(), cog: g(b.CenterOfGravity())}
	s.mInv, s.iInv = 1/s.m, 1/s.i
	if s.m >= cp.INFINITY {
		s.mInv = 0
	}
	if s.i >= cp.INFINITY {
		s.iInv = 0
	}
	return s
}

// at turns a point of the body into the world by the state alone.
func (s St) at(local P) P { return s.c.Add(local.Sub(s.cog).Rot(s.a)) }

// vel is the velocity of the body's material at a world point.
func (s St) vel(world P) P { return s.v.Add(world.Sub(s.c).Left().Mul(s.w)) }

func (s St) String() string {
	return fmt.Sprintf("c=%v a=%.9g v=%v w=%.9g", s.c, s.a, s.v, s.w)
}

// drift moves a state by its velocity.
func (s St) drift(dt float64) St {
	s.c = s.c.Add(s.v.Mul(dt))
	s.a += s.w * dt
	return s
}

// fall applies gravity, force and damping to a dynamic state.
func (s St) fall(gr P, damp, dt float64) St {
	s.v = s.v.Mul(damp).Add(gr.Add(s.f.Mul(s.mInv)).Mul(dt))
	s.w = s.w*damp + s.t*s.iInv*dt
	s.f, s.t = P{}, 0
	return s
}

// genBody makes a body of a type: random mass, moment (sometimes infinite),
// centre of gravity (through a massive shape), pose and velocity.
// It goes into the space unless that is nil.
func genBody(t *pbt.T, sp *cp.Space, id, typ int, size, speed float64) *PB {
	x := &PB{id: id, typ: typ, rest: sp == nil}
	switch typ {
	case cp.BODY_DYNAMIC:
		m, i := t.Log(0.1, 50), t.Log(0.1, 100)
		x.b = cp.NewBody(m, i)
		if t.P(1, 3) {
			r, o := t.Log(0.3, 3), genP(t, 2)
			s := cp.NewCircle(x.b, r, v(o))
			s.SetFilter(cp.SHAPE_FILTER_NONE)
			if sp != nil {
				sp.AddShape(s)
			} else {
				x.b.AddShape(s)
			}
			s.SetMass(m)
			t.Label("offset-cog")
		} else if t.P(1, 10) {
			x.b.SetMoment(cp.INFINITY)
			t.Label("infinite-moment")
		}
	case cp.BODY_KINEMATIC:
		x.b = cp.NewKinematicBody()
	default:
		x.b = cp.NewStaticBody()
	}
	x.b.SetPosition(v(genP(t, size)))
	if t.P(3, 4) {
		x.b.SetAngle(t.Angle())
	}
	if typ != cp.BODY_STATIC {
		x.b.SetVelocity(t.F(-speed, speed), t.F(-speed, speed))
		x.b.SetAngularVelocity(t.F(-speed, speed) / 3)
	}
	if sp != nil {
		sp.AddBody(x.b)
	}
	t.Logf("%v: type %d m=%.4g i=%.4g cog=%v %s", x, typ, x.b.Mass(), x.b.Moment(), x.b.CenterOfGravity(), fmtBody(x.b))
	return x
}

func genDt(t *pbt.T) float64 {
	switch t.Intn(4) {
	case 0:
		return 1.0 / 60
	case 1:
		return t.Log(1e-4, 0.5)
	}
	return t.Log(0.003, 0.05)
}

// sameState compares two states; tol is relative to the sizes involved.
func sameState(t *pbt.T, kind, what string, got, want St, tol float64) {
	sc := tol * (1 + want.c.Len() + want.v.Len() + math.Abs(want.w) + math.Abs(want.a))
	t.Check(got.c.Dist(want.c) <= sc, kind+"-position", "%s: centre of gravity at %v, want %v", what, got.c, want.c)
	t.Check(math.Abs(got.a-want.a) <= sc, kind+"-angle", "%s: angle %v, want %v", what, got.a, want.a)
	t.Check(got.v.Dist(want.v) <= sc, kind+"-velocity", "%s: velocity %v, want %v", what, got.v, want.v)
	t.Check(math.Abs(got.w-want.w) <= sc, kind+"-spin", "%s: spin %v, want %v", what, got.w, want.w)
}
