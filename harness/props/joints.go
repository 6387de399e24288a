package props

import (
	"fmt"
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

// J is a joint with the values it was given, and the law it has to obey.
type J struct {
	c          *cp.Constraint
	kind       string
	a, b       *PB
	pa, pb     P // anchors
	ga, gb     P // groove ends, on a
	dist       float64
	min, max   float64 // slide, rotary limit
	phase      float64
	ratio      float64
	ratchet    float64
	angle      float64 // ratchet: the click it stands on
	rate       float64
	rest       float64
	stiff      float64
	damping    float64
	maxForce   float64
	maxBias    float64
	errorBias  float64
	force      func(x float64) float64 // custom spring law, nil: linear
	asked      []float64               // what the custom law was asked in this step
	badSpring  bool
	inert      bool // not in the space
	npre, npst int
}

var positional = []string{"pivot", "pin", "slide", "groove"}
var rotary = []string{"gear", "ratchet", "limit", "motor"}
var springs = []string{"spring", "rotary-spring"}

func (j *J) isRotary() bool {
	switch j.kind {
	case "gear", "ratchet", "limit", "motor", "rotary-spring":
		return true
	}
	return false
}

func (j *J) isSpring() bool { return j.kind == "spring" || j.kind == "rotary-spring" }

func (j *J) String() string {
	s := fmt.Sprintf("%s(%v,%v", j.kind, j.a, j.b)
	switch j.kind {
	case "pivot":
		s += fmt.Sprintf(" anchors %v %v", j.pa, j.pb)
	case "pin":
		s += fmt.Sprintf(" anchors %v %v dist %.6g", j.pa, j.pb, j.dist)
	case "slide":
		s += fmt.Sprintf(" anchors %v %v range %.6g..%.6g", j.pa, j.pb, j.min, j.max)
	case "groove":
		s += fmt.Sprintf(" groove %v-%v anchor %v", j.ga, j.gb, j.pb)
	case "spring":
		s += fmt.Sprintf(" anchors %v %v rest %.6g stiffness %.6g damping %.6g", j.pa, j.pb, j.rest, j.stiff, j.damping)
	case "rotary-spring":
		s += fmt.Sprintf(" rest %.6g stiffness %.6g damping %.6g", j.rest, j.stiff, j.damping)
	case "gear":
		s += fmt.Sprintf(" phase %.6g ratio %.6g", j.phase, j.ratio)
	case "ratchet":
		s += fmt.Sprintf(" phase %.6g ratchet %.6g", j.phase, j.ratchet)
	case "limit":
		s += fmt.Sprintf(" range %.6g..%.6g", j.min, j.max)
	case "motor":
		s += fmt.Sprintf(" rate %.6g", j.rate)
	}
	return s + fmt.Sprintf(" maxForce=%.4g maxBias=%.4g errorBias=%.4g)", j.maxForce, j.maxBias, j.errorBias)
}

// genJoint makes a joint between two bodies, often with its error at zero.
func genJoint(t *pbt.T, kind string, a, b *PB) *J { return genJointU(t, kind, a, b, 1) }

// genJointU makes one with lengths in the unit u.
func genJointU(t *pbt.T, kind string, a, b *PB, u float64) *J {
	j := &J{kind: kind, a: a, b: b, maxForce: cp.INFINITY, maxBias: cp.INFINITY, errorBias: math.Pow(0.9, 60)}
	j.pa, j.pb = genP(t, 3*u), genP(t, 3*u)
	if t.P(1, 4) {
		j.pa = g(a.b.CenterOfGravity())
	}
	if t.P(1, 4) {
		j.pb = g(b.b.CenterOfGravity())
	}
	gap := g(a.b.LocalToWorld(v(j.pa))).Dist(g(b.b.LocalToWorld(v(j.pb))))
	rel := b.b.Angle() - a.b.Angle()
	switch kind {
	case "pivot":
		if t.Bool() {
			at := g(a.b.Position()).Add(genP(t, 5*u))
			j.c = cp.NewPivotJoint(a.b, b.b, v(at))
			j.pa, j.pb = g(a.b.WorldToLocal(v(at))), g(b.b.WorldToLocal(v(at)))
		} else {
			j.c = cp.NewPivotJoint2(a.b, b.b, v(j.pa), v(j.pb))
		}
		c := j.c.Class.(*cp.PivotJoint)
		t.Check(g(c.AnchorA) == j.pa && g(c.AnchorB) == j.pb, "anchors", "pivot joint holds anchors %v %v, want %v %v", c.AnchorA, c.AnchorB, j.pa, j.pb)
	case "pin":
		j.c = cp.NewPinJoint(a.b, b.b, v(j.pa), v(j.pb))
		c := j.c.Class.(*cp.PinJoint)
		t.Check(near(c.Dist, gap, 1e-9), "pin-length", "a new pin joint has length %v, its anchors are %v apart", c.Dist, gap)
		if t.Bool() {
			c.Dist = t.F(0, 10) * u
		}
		j.dist = c.Dist
	case "slide":
		j.min, j.max = t.F(0, 10)*u, 0.0
		j.max = j.min + t.F(0, 10)*u
		switch t.Intn(4) {
		case 0: // inside the range
			j.min, j.max = math.Max(0, gap-t.F(0, 3)*u), gap+t.F(0, 3)*u
		case 1:
			j.min, j.max = 0, gap*t.F(0, 1.5)
		}
		j.c = cp.NewSlideJoint(a.b, b.b, v(j.pa), v(j.pb), j.min, j.max)
	case "groove":
		j.ga = genP(t, 5*u)
		j.gb = j.ga.Add(P{t.Log(0.5, 10) * u, 0}.Rot(t.Angle()))
		if t.Bool() { // start inside the groove
			at := j.ga.Lerp(j.gb, t.F(0, 1))
			b.b.SetPosition(v(g(b.b.Position()).Add(g(a.b.LocalToWorld(v(at))).Sub(g(b.b.LocalToWorld(v(j.pb)))))))
		}
		j.c = cp.NewGrooveJoint(a.b, b.b, v(j.ga), v(j.gb), v(j.pb))
	case "gear":
		j.ratio = t.F(0.2, 5)
		if t.P(1, 6) {
			j.ratio = t.Log(0.02, 50)
		}
		if t.Bool() {
			j.ratio = -j.ratio
		}
		if t.P(1, 3) {
			j.ratio = 1
		}
		j.phase = t.F(-3, 3)
		if t.Bool() {
			j.phase = b.b.Angle()*j.ratio - a.b.Angle()
		}
		j.c = cp.NewGearJoint(a.b, b.b, j.phase, j.ratio)
	case "ratchet":
		j.ratchet, j.phase = t.F(0.1, 2), t.F(-3, 3)
		if t.Bool() {
			j.ratchet = -j.ratchet
		}
		j.c = cp.NewRatchetJoint(a.b, b.b, j.phase, j.ratchet)
		j.angle = rel
		c := j.c.Class.(*cp.RatchetJoint)
		t.Check(near(c.Angle, rel, 1e-12), "ratchet-start", "a new ratchet starts at %v, the bodies are %v apart", c.Angle, rel)
		if t.P(1, 4) {
			c.Angle += t.F(-2, 2)
			j.angle = c.Angle
		}
	case "limit":
		j.min = rel + t.F(-3, 2)
		j.max = j.min + t.F(0, 3)
		j.c = cp.NewRotaryLimitJoint(a.b, b.b, j.min, j.max)
	case "motor":
		j.rate = t.F(-10, 10) * wide(t)
		j.c = cp.NewSimpleMotor(a.b, b.b, j.rate)
	case "spring":
		j.rest, j.stiff, j.damping = t.F(0, 10)*u, t.F(0, 200), t.F(0, 20)
		if t.P(1, 5) {
			j.damping = t.Log(20, 1e4)
		}
		j.c = cp.NewDampedSpring(a.b, b.b, v(j.pa), v(j.pb), j.rest, j.stiff, j.damping)
		if t.P(1, 4) {
			k, o := t.F(-20, 20), t.F(-5, 5)
			j.force = func(x float64) float64 { return k*x + o }
			s := j.c.Class.(*cp.DampedSpring)
			s.SpringForceFunc = func(s2 *cp.DampedSpring, dist float64) float64 {
				j.badSpring = j.badSpring || s2 != s
				j.asked = append(j.asked, dist)
				return j.force(dist)
			}
			t.Label("custom-spring")
		}
	case "rotary-spring":
		j.rest, j.stiff, j.damping = t.F(-4, 4), t.F(0, 200), t.F(0, 20)
		if t.P(1, 5) {
			j.damping = t.Log(20, 1e4)
		}
		j.c = cp.NewDampedRotarySpring(a.b, b.b, j.rest, j.stiff, j.damping)
		if t.P(1, 4) {
			k, o := t.F(-20, 20), t.F(-5, 5)
			j.force = func(x float64) float64 { return k*x + o }
			s := j.c.Class.(*cp.DampedRotarySpring)
			s.SpringTorqueFunc = func(s2 *cp.DampedRotarySpring, x float64) float64 {
				j.badSpring = j.badSpring || s2 != s
				j.asked = append(j.asked, x)
				return j.force(x)
			}
			t.Label("custom-spring")
		}
	default:
		panic(kind)
	}
	t.Label("joint:" + kind)
	return j
}

func (j *J) setMaxForce(f float64)  { j.maxForce = f; j.c.SetMaxForce(f) }
func (j *J) setMaxBias(f float64)   { j.maxBias = f; j.c.SetMaxBias(f) }
func (j *J) setErrorBias(f float64) { j.errorBias = f; j.c.SetErrorBias(f) }

// limits gives a joint a random correction rate.
func (j *J) tune(t *pbt.T) {
	if t.P(1, 3) {
		j.setErrorBias([]float64{0, 1, t.F(0, 1), t.Log(1e-9, 1)}[t.Intn(4)])
	}
	if t.P(1, 3) {
		j.setMaxBias([]float64{0, t.F(0, 10), t.Log(0.01, 1000)}[t.Intn(3)])
	}
}

func clampLen(p P, n float64) P {
	if l := p.Len(); l > n {
		return p.Mul(n / l)
	}
	return p
}

func clampF(x, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, x)) }

// JStep is what a joint did in a step, measured from the bodies.
type JStep struct {
	J      P       // impulse on b (and minus it on a)
	T      float64 // rotary: angular impulse on b
	active bool    // a one-sided joint was past its limit
	atMax  bool    // the force limit was reached
	err    float64 // size of the joint's error before the step's solver
	exact  bool    // the velocity law was checked exactly
}

// step checks one step of a single joint between two otherwise free bodies.
func (j *J) step(t *pbt.T, A0, B0, A1, B1 St, gr P, damp, dt float64) (r JStep) {
	dynA, dynB := j.a.typ == cp.BODY_DYNAMIC, j.b.typ == cp.BODY_DYNAMIC
	free := func(x *PB, s St, dv P, dw float64) St {
		if x.typ == cp.BODY_STATIC || x.rest {
			return s
		}
		s = s.drift(dt)
		if x.typ == cp.BODY_DYNAMIC {
			s.v, s.w = s.v.Add(dv), s.w+dw
			s = s.fall(gr, damp, dt)
		}
		return s
	}
	A, B := free(j.a, A0, P{}, 0), free(j.b, B0, P{}, 0)
	sz := 1 + A.v.Len() + B.v.Len() + A1.v.Len() + B1.v.Len() + 10*(math.Abs(A.w)+math.Abs(B.w)+math.Abs(A1.w)+math.Abs(B1.w)) + (A.c.Len()+B.c.Len())/dt*1e-2
	eps := 1e-8 * sz
	t.Check(A1.c.Dist(A.c) <= 1e-9*sz && B1.c.Dist(B.c) <= 1e-9*sz && math.Abs(A1.a-A.a) <= 1e-9*sz && math.Abs(B1.a-B.a) <= 1e-9*sz,
		"joint-moved", "%v: bodies moved otherwise than by their velocity: %v %v, want %v %v", j, A1, B1, A, B)
	for _, x := range []struct {
		p      *PB
		s0, s1 St
	}{{j.a, A0, A1}, {j.b, B0, B1}} {
		if x.p.typ != cp.BODY_DYNAMIC {
			t.Check(x.s0.v == x.s1.v && x.s0.w == x.s1.w, "joint-pushed-unmovable", "%v changed the velocity of %v: %v -> %v", j, x.p, x.s0, x.s1)
		}
	}
	p1, p2 := A.at(j.pa), B.at(j.pb)
	coef := 1 - math.Pow(j.errorBias, dt)
	gi := math.Abs(j.c.Class.GetImpulse())
	jmax := j.maxForce * dt

	if j.isRotary() {
		r1, r2 := 1.0, 1.0 // weights of the angular impulse on a (minus) and b
		if j.kind == "gear" {
			r1 = 1 / j.ratio
		}
		t.Check(A1.v.Dist(A.v) <= eps && B1.v.Dist(B.v) <= eps, "rotary-linear", "%v changed linear velocities: %v %v, want %v %v", j, A1.v, B1.v, A.v, B.v)
		if j.kind == "rotary-spring" {
			j.checkRotarySpring(t, A0, B0, A, B, A1, B1, gr, damp, dt, eps, free)
			return
		}
		// angular impulse
		T := 0.0
		switch {
		case dynB && B.iInv > 1e-100:
			T = (B1.w - B.w) / B.iInv / r2
		case dynA && A.iInv > 1e-100:
			T = -(A1.w - A.w) / A.iInv / r1
		}
		r.T = T
		et := eps * (1 + j.momentScale(A, B))
		if dynA {
			want := A.w - T*A.iInv*r1
			t.Check(math.Abs(A1.w-want) <= eps*(1+j.momentScale(A, B)*A.iInv), "reaction", "%v: spins change by %v and %v, which is not an impulse and its reaction (a: %v want %v)", j, A1.w-A.w, B1.w-B.w, A1.w, want)
		}
		t.Check(math.Abs(T) <= jmax*(1+1e-9)+et, "max-force", "%v applied an angular impulse of %v, its limit is %v", j, T, jmax)
		t.Check(math.Abs(gi-math.Abs(T)) <= et, "reported-impulse", "%v reports an impulse of %v, it applied %v", j, gi, math.Abs(T))
		r.atMax = math.Abs(T) >= jmax*(1-1e-6)-1e-12-1e-4*et
		wr := B1.w - A1.w
		rel := B.a - A.a
		one := func(pdist float64, sure bool) {
			// pushes towards sign(pdist) until wr reaches coef*pdist/dt, never the other way
			target := clampF(coef*pdist/dt, -j.maxBias, j.maxBias)
			if !sure {
				return
			}
			if target == 0 {
				t.Check(math.Abs(T) <= et, "inside-range", "%v: inside its range (or at rate zero) but applied %v", j, T)
				return
			}
			r.active, r.exact, r.err = true, true, math.Abs(pdist)
			s := math.Copysign(1, pdist)
			t.Check(T*s >= -et, "one-sided", "%v: violated by %v but pulled the wrong way with %v", j, pdist, T)
			if !r.atMax {
				t.Check(wr*s >= target*s-eps, "limit-speed", "%v: violated by %v; relative spin after the step is %v, want at least %v", j, pdist, wr, target)
				if math.Abs(T) > et {
					t.Check(math.Abs(wr-target) <= eps, "limit-speed", "%v: violated by %v; relative spin after the step is %v, want %v", j, pdist, wr, target)
				}
			}
		}
		switch j.kind {
		case "motor":
			r.exact, r.active = true, true
			if !r.atMax {
				t.Check(math.Abs(wr+j.rate) <= eps, "motor-rate", "%v: relative spin %v after the step", j, wr)
			}
		case "gear":
			r.exact, r.active = true, true
			e := B.a*j.ratio - A.a - j.phase
			r.err = math.Abs(e)
			target := clampF(-coef*e/dt, -j.maxBias, j.maxBias)
			if !r.atMax {
				t.Check(math.Abs(B1.w*j.ratio-A1.w-target) <= eps*(1+math.Abs(j.ratio)), "gear-speed", "%v: phase error %v; geared relative spin %v after the step, want %v", j, e, B1.w*j.ratio-A1.w, target)
			}
		case "limit":
			pd := 0.0
			if rel > j.max {
				pd = j.max - rel
			} else if rel < j.min {
				pd = j.min - rel
			}
			one(pd, pd == 0 && rel-j.min > 1e-9 && j.max-rel > 1e-9 || math.Abs(pd) > 1e-9)
		case "ratchet":
			diff := j.angle - rel
			pd := 0.0
			got := j.c.Class.(*cp.RatchetJoint).Angle
			if diff*j.ratchet > 0 {
				pd = diff
				t.Check(math.Abs(got-j.angle) <= 1e-9, "ratchet-click", "%v: held back at %v (bodies at %v) but now stands at %v", j, j.angle, rel, got)
			} else if math.Abs(diff) > 1e-9 {
				x := (rel - j.phase) / j.ratchet
				want := math.Floor(x)*j.ratchet + j.phase
				if math.Abs(x-math.Round(x)) > 1e-7 {
					t.Check(near(got, want, 1e-9), "ratchet-click", "%v: bodies at %v, stands at %v, want click %v", j, rel, got, want)
				}
			}
			one(pd, math.Abs(diff) > 1e-9)
			j.angle = got
		}
		return
	}

	if j.kind == "spring" {
		j.checkSpring(t, A0, B0, A, B, A1, B1, p1, p2, gr, damp, dt, eps, free)
		return
	}
	// groove: the point of a it acts on
	var gn P
	clamp := 0
	sure := true
	if j.kind == "groove" {
		ta, tb := A.at(j.ga), A.at(j.gb)
		along := tb.Sub(ta).Unit()
		gn = along.Left()
		s := p2.Sub(ta).Dot(along)
		L := ta.Dist(tb)
		switch {
		case s <= 0:
			p1, clamp = ta, 1
		case s >= L:
			p1, clamp = tb, -1
		default:
			p1 = ta.Add(along.Mul(s))
		}
		sure = math.Abs(s) > 1e-9 && math.Abs(s-L) > 1e-9
	}
	delta := p2.Sub(p1)
	dist := delta.Len()
	if (j.kind == "pin" || j.kind == "slide") && dist < 1e-6 {
		return // no direction to act along
	}
	r1, r2 := p1.Sub(A.c), p2.Sub(B.c)
	ms := 0.0
	if dynA {
		ms = math.Max(ms, A.m)
	}
	if dynB {
		ms = math.Max(ms, B.m)
	}
	if dynA && dynB {
		ms = math.Min(A.m, B.m) + 0.01*ms
	}
	ej := eps * (1 + ms) * 10
	var Jm P
	switch { // measure on the lighter body
	case dynB && (!dynA || B.m <= A.m):
		Jm = B1.v.Sub(B.v).Mul(B.m)
	default:
		Jm = A1.v.Sub(A.v).Mul(-A.m)
	}
	r.J = Jm
	if dynA {
		t.Check(A1.v.Sub(A.v).Dist(Jm.Mul(-A.mInv)) <= eps*10, "reaction", "%v: a's velocity changed by %v, impulse %v on b", j, A1.v.Sub(A.v), Jm)
		want := A.w - r1.Cross(Jm)*A.iInv
		t.Check(math.Abs(A1.w-want) <= eps*10*(1+r1.Len()*(1+ms)*A.iInv), "joint-torque", "%v: a's spin is %v, an impulse %v at %v gives %v", j, A1.w, Jm.Mul(-1), r1, want)
	}
	if dynB {
		t.Check(B1.v.Sub(B.v).Dist(Jm.Mul(B.mInv)) <= eps*10, "reaction", "%v: b's velocity changed by %v, impulse %v on it", j, B1.v.Sub(B.v), Jm)
		want := B.w + r2.Cross(Jm)*B.iInv
		t.Check(math.Abs(B1.w-want) <= eps*10*(1+r2.Len()*(1+ms)*B.iInv), "joint-torque", "%v: b's spin is %v, an impulse %v at %v gives %v", j, B1.w, Jm, r2, want)
	}
	t.Check(Jm.Len() <= jmax*(1+1e-9)+ej, "max-force", "%v applied an impulse of %v, its limit is %v", j, Jm.Len(), jmax)
	if sure {
		t.Check(math.Abs(gi-Jm.Len()) <= ej, "reported-impulse", "%v reports an impulse of %v, it applied %v", j, gi, Jm.Len())
	}
	r.atMax = Jm.Len() >= jmax*(1-1e-6)-1e-12-1e-4*ej
	vr := B1.vel(p2).Sub(A1.vel(p1))
	ev := eps * 10 * (1 + r1.Len() + r2.Len())
	switch j.kind {
	case "pivot":
		r.exact, r.active, r.err = true, true, dist
		target := clampLen(delta.Mul(-coef/dt), j.maxBias)
		if !r.atMax {
			t.Check(vr.Dist(target) <= ev, "pivot-speed", "%v: anchors %v apart; relative velocity after the step %v, want %v", j, delta, vr, target)
		}
	case "pin":
		r.exact, r.active, r.err = true, true, math.Abs(dist-j.dist)
		n := delta.Mul(1 / dist)
		t.Check(math.Abs(Jm.Cross(n)) <= ej+1e-7*Jm.Len()/math.Min(1, dist), "pin-direction", "%v: impulse %v is not along the pin %v", j, Jm, n)
		target := clampF(-coef*(dist-j.dist)/dt, -j.maxBias, j.maxBias)
		if !r.atMax {
			t.Check(math.Abs(vr.Dot(n)-target) <= ev/math.Min(1, dist), "pin-speed", "%v: anchors %v apart; closing speed after the step %v, want %v", j, dist, vr.Dot(n), target)
		}
	case "slide":
		n := delta.Mul(1 / dist)
		pd := 0.0
		if dist > j.max {
			pd = dist - j.max
		} else if dist < j.min {
			pd = j.min - dist
			n = n.Mul(-1)
		}
		if pd == 0 {
			if dist-j.min > 1e-9 && j.max-dist > 1e-9 {
				t.Check(Jm.Len() <= ej, "inside-range", "%v: anchors %v apart, inside the range, but it applied %v", j, dist, Jm)
			}
			return
		}
		if pd < 1e-9 {
			return
		}
		r.exact, r.active, r.err = true, true, pd
		t.Check(math.Abs(Jm.Cross(n)) <= ej+1e-7*Jm.Len()/math.Min(1, dist), "slide-direction", "%v: impulse %v is not along %v", j, Jm, n)
		jn := Jm.Dot(n)
		t.Check(jn <= ej, "one-sided", "%v: anchors %v apart, impulse %v pushes further out of range", j, dist, Jm)
		target := clampF(-coef*pd/dt, -j.maxBias, j.maxBias)
		if !r.atMax {
			e := ev / math.Min(1, dist)
			t.Check(vr.Dot(n) <= target+e, "slide-speed", "%v: anchors %v apart; speed out of range after the step %v, want at most %v", j, dist, vr.Dot(n), target)
			if jn < -ej {
				t.Check(math.Abs(vr.Dot(n)-target) <= e, "slide-speed", "%v: anchors %v apart; speed after the step %v, want %v", j, dist, vr.Dot(n), target)
			}
		}
	case "groove":
		if !sure {
			return
		}
		along := gn.Left().Mul(-1)
		jt := Jm.Dot(along)
		r.active, r.err = true, dist
		if clamp == 0 {
			r.err = math.Abs(delta.Dot(gn))
			t.Check(math.Abs(jt) <= ej+1e-7*Jm.Len(), "groove-direction", "%v: in the groove the impulse %v is not across it (%v)", j, Jm, gn)
		} else {
			t.Check(jt*float64(clamp) >= -ej-1e-7*Jm.Len(), "one-sided", "%v: past an end of the groove the impulse %v pushes further out", j, Jm)
		}
		// The two directions are solved together only where turning does not couple them.
		k := 0.0
		for _, x := range []struct {
			s St
			r P
			d bool
		}{{A, r1, dynA}, {B, r2, dynB}} {
			if x.d {
				k += math.Abs(x.r.Cross(gn) * x.r.Cross(along) * x.s.iInv)
			}
		}
		if k > 1e-12 || r.atMax {
			return
		}
		r.exact = true
		target := clampLen(delta.Mul(-coef/dt), j.maxBias)
		t.Check(math.Abs(vr.Dot(gn)-target.Dot(gn)) <= ev, "groove-speed", "%v: anchor %v off the groove; speed across it after the step %v, want %v", j, delta.Dot(gn), vr.Dot(gn), target.Dot(gn))
		if clamp != 0 {
			c := float64(clamp)
			t.Check(vr.Dot(along)*c >= target.Dot(along)*c-ev, "groove-end", "%v: anchor past the end by %v; speed along the groove after the step %v, want at least %v inwards", j, delta.Dot(along), vr.Dot(along)*c, target.Dot(along)*c)
			if math.Abs(jt) > ej {
				t.Check(math.Abs(vr.Dot(along)-target.Dot(along)) <= ev, "groove-end", "%v: anchor past the end by %v; speed along the groove after the step %v, want %v", j, delta.Dot(along), vr.Dot(along), target.Dot(along))
			}
		}
	}
	return
}

func (j *J) momentScale(A, B St) float64 {
	s := math.Inf(1)
	if j.a.typ == cp.BODY_DYNAMIC && A.iInv > 1e-100 {
		s = A.i
	}
	if j.b.typ == cp.BODY_DYNAMIC && B.iInv > 1e-100 {
		s = math.Min(s, B.i)
		s = B.i
	}
	if math.IsInf(s, 0) {
		return 0
	}
	return s * (1 + math.Abs(j.ratio))
}

type freeFn func(x *PB, s St, dv P, dw float64) St

// A spring's force acts before gravity and global damping, its own damping after.
func (j *J) checkSpring(t *pbt.T, A0, B0, A, B, A1, B1 St, p1, p2 P, gr P, damp, dt, eps float64, free freeFn) {
	delta := p2.Sub(p1)
	dist := delta.Len()
	if dist < 1e-6 {
		return
	}
	n := delta.Mul(1 / dist)
	f := (j.rest - dist) * j.stiff
	if j.force != nil {
		f = j.force(dist)
		t.Check(!j.badSpring, "spring-function", "%v: force function called with another spring", j)
		t.Check(len(j.asked) == 1 && near(j.asked[0], dist, 1e-8), "spring-function", "%v: force function asked for %v, the length is %v", j, j.asked, dist)
	}
	r1, r2 := p1.Sub(A.c), p2.Sub(B.c)
	k := 0.0
	if j.a.typ == cp.BODY_DYNAMIC {
		k += A.mInv + A.iInv*r1.Cross(n)*r1.Cross(n)
	}
	if j.b.typ == cp.BODY_DYNAMIC {
		k += B.mInv + B.iInv*r2.Cross(n)*r2.Cross(n)
	}
	j1 := n.Mul(f * dt)
	A2 := free(j.a, A0, j1.Mul(-A.mInv), -r1.Cross(j1)*A.iInv)
	B2 := free(j.b, B0, j1.Mul(B.mInv), r2.Cross(j1)*B.iInv)
	vrn := B2.vel(p2).Sub(A2.vel(p1)).Dot(n)
	want := vrn * math.Exp(-j.damping*dt*k)
	e := (eps*10 + 1e-8*math.Abs(f*dt)*k) * (1 + r1.Len() + r2.Len()) / math.Min(1, dist)
	got := B1.vel(p2).Sub(A1.vel(p1)).Dot(n)
	t.Check(math.Abs(got-want) <= e, "spring-speed", "%v: length %v force %v: speed along it after the step %v, want %v (before damping %v)", j, dist, f, got, want, vrn)
	jd := n.Mul((want - vrn) / k)
	if j.a.typ == cp.BODY_DYNAMIC {
		A2.v, A2.w = A2.v.Sub(jd.Mul(A.mInv)), A2.w-r1.Cross(jd)*A.iInv
		t.Check(A2.v.Dist(A1.v) <= e && math.Abs(A2.w-A1.w) <= e*(1+k), "spring-reaction", "%v: a is %v after the step, want %v", j, A1, A2)
	}
	if j.b.typ == cp.BODY_DYNAMIC {
		B2.v, B2.w = B2.v.Add(jd.Mul(B.mInv)), B2.w+r2.Cross(jd)*B.iInv
		t.Check(B2.v.Dist(B1.v) <= e && math.Abs(B2.w-B1.w) <= e*(1+k), "spring-reaction", "%v: b is %v after the step, want %v", j, B1, B2)
	}
	wj := f*dt + (want-vrn)/k
	t.Check(math.Abs(math.Abs(j.c.Class.GetImpulse())-math.Abs(wj)) <= e*(1+1/k)*10, "reported-impulse", "%v reports an impulse of %v, it applied %v", j, j.c.Class.GetImpulse(), wj)
}

func (j *J) checkRotarySpring(t *pbt.T, A0, B0, A, B, A1, B1 St, gr P, damp, dt, eps float64, free freeFn) {
	rel := A.a - B.a
	f := (rel - j.rest) * j.stiff
	if j.force != nil {
		f = j.force(rel)
		t.Check(!j.badSpring, "spring-function", "%v: torque function called with another spring", j)
		t.Check(len(j.asked) == 1 && near(j.asked[0], rel, 1e-9), "spring-function", "%v: torque function asked for %v, the relative angle is %v", j, j.asked, rel)
	}
	k := 0.0
	if j.a.typ == cp.BODY_DYNAMIC {
		k += A.iInv
	}
	if j.b.typ == cp.BODY_DYNAMIC {
		k += B.iInv
	}
	if k < 1e-100 {
		return
	}
	A2 := free(j.a, A0, P{}, -f*dt*A.iInv)
	B2 := free(j.b, B0, P{}, f*dt*B.iInv)
	wr := A2.w - B2.w
	want := wr * math.Exp(-j.damping*dt*k)
	e := eps*10 + 1e-8*math.Abs(f*dt)*k
	t.Check(math.Abs(A1.w-B1.w-want) <= e, "spring-speed", "%v: relative angle %v torque %v: relative spin after the step %v, want %v (before damping %v)", j, rel, f, A1.w-B1.w, want, wr)
	jd := (want - wr) / k
	if j.a.typ == cp.BODY_DYNAMIC {
		t.Check(math.Abs(A1.w-(A2.w+jd*A.iInv)) <= e*(1+k), "spring-reaction", "%v: a spins at %v after the step, want %v", j, A1.w, A2.w+jd*A.iInv)
	}
	if j.b.typ == cp.BODY_DYNAMIC {
		t.Check(math.Abs(B1.w-(B2.w-jd*B.iInv)) <= e*(1+k), "spring-reaction", "%v: b spins at %v after the step, want %v", j, B1.w, B2.w-jd*B.iInv)
	}
	// the reported value is the sum of what the spring and its damping applied
	gi := math.Abs(j.c.Class.GetImpulse())
	j1, j2 := math.Abs(f*dt+jd), math.Abs(f*dt-jd)
	t.Check(math.Abs(gi-j1) <= e*(1+1/k)*10 || math.Abs(gi-j2) <= e*(1+1/k)*10, "reported-impulse", "%v reports an impulse of %v, it applied %v", j, gi, j1)
}

// JScene is two bodies, one joint and nothing else.
type JScene struct {
	t    *pbt.T
	sp   *cp.Space
	gr   P
	damp float64
	dt   float64
	u    float64 // unit of length
	a, b *PB
	j    *J
}

func genJScene(t *pbt.T, kind string, speed float64) *JScene {
	s := &JScene{t: t, sp: cp.NewSpace(), damp: 1, dt: genDt(t), u: 1}
	if t.P(1, 6) {
		s.u = t.Log(0.02, 100)
	}
	if t.Bool() {
		s.gr = P{t.F(-20, 20), t.F(-60, 20)}
		s.sp.SetGravity(v(s.gr))
	}
	if t.P(1, 3) {
		s.damp = t.F(0.05, 1)
		s.sp.SetDamping(s.damp)
	}
	s.sp.Iterations = uint(t.Int(1, 10))
	typs := [][2]int{{cp.BODY_DYNAMIC, cp.BODY_DYNAMIC}, {cp.BODY_DYNAMIC, cp.BODY_KINEMATIC}, {cp.BODY_DYNAMIC, cp.BODY_STATIC}}[t.Weighted(3, 1, 2)]
	if t.Bool() {
		typs[0], typs[1] = typs[1], typs[0]
	}
	mk := func(id, typ int) *PB {
		if typ == cp.BODY_STATIC && t.P(1, 2) {
			return &PB{b: s.sp.StaticBody, id: id, typ: typ, rest: true}
		}
		space := s.sp
		if typ != cp.BODY_DYNAMIC && t.P(1, 3) {
			space = nil
		}
		return genBody(t, space, id, typ, 8*s.u, speed)
	}
	s.a, s.b = mk(0, typs[0]), mk(1, typs[1])
	if s.u > 1 { // moments go with the square of a length: long arms on bodies of no moment only amplify rounding
		for _, x := range []*PB{s.a, s.b} {
			if x.typ == cp.BODY_DYNAMIC && x.b.Moment() < cp.INFINITY {
				x.b.SetMoment(x.b.Moment() * s.u * s.u)
			}
		}
	}
	s.j = genJointU(t, kind, s.a, s.b, s.u)
	if s.j.isRotary() { // something has to be able to turn
		for _, x := range []*PB{s.a, s.b} {
			if x.typ == cp.BODY_DYNAMIC && x.b.Moment() >= cp.INFINITY {
				x.b.SetMoment(t.Log(0.1, 100))
			}
		}
	}
	if kind == "groove" && t.Bool() { // so that the law can be checked exactly
		for _, x := range []*PB{s.a, s.b} {
			if x.typ == cp.BODY_DYNAMIC {
				x.b.SetMoment(cp.INFINITY)
			}
		}
	}
	s.j.tune(t)
	s.sp.AddConstraint(s.j.c)
	t.Logf("%v gravity=%v damping=%v iterations=%d", s.j, s.gr, s.damp, s.sp.Iterations)
	return s
}

// step runs and checks a step.
func (s *JScene) step() JStep {
	t := s.t
	A0, B0 := snap(s.a.b), snap(s.b.b)
	for _, x := range []St{A0, B0} {
		if !x.c.Finite() || !x.v.Finite() || x.c.Len() > 1e4 || x.v.Len() > 1e4 || math.Abs(x.w) > 1e4 || math.Abs(x.a) > 1e4 {
			t.Discard("blew up")
		}
	}
	s.j.asked = s.j.asked[:0]
	t.Logf("step dt=%v: a %v, b %v", s.dt, A0, B0)
	s.sp.Step(s.dt)
	A1, B1 := snap(s.a.b), snap(s.b.b)
	if s.j.inert {
		s.j.checkInert(t, A0, B0, A1, B1, s.gr, math.Pow(s.damp, s.dt), s.dt)
		return JStep{}
	}
	return s.j.step(t, A0, B0, A1, B1, s.gr, math.Pow(s.damp, s.dt), s.dt)
}

// disturb changes something about the bodies between steps.
func (s *JScene) disturb(speed float64) {
	t := s.t
	x := []*PB{s.a, s.b}[t.Intn(2)]
	if x.typ == cp.BODY_STATIC {
		if x.rest && x.b == s.sp.StaticBody {
			return
		}
		x.b.SetPosition(v(genP(t, 8*s.u)))
		return
	}
	switch t.Intn(5) {
	case 0:
		x.b.SetVelocityVector(v(genP(t, speed)))
	case 1:
		x.b.SetAngularVelocity(t.F(-speed, speed) / 2)
	case 2:
		x.b.SetPosition(v(genP(t, 8*s.u)))
	case 3:
		x.b.SetAngle(x.b.Angle() + t.F(-3, 3))
	case 4:
		x.b.ApplyForceAtWorldPoint(v(genP(t, 100)), v(genP(t, 8*s.u)))
	}
}

// checkInert: bodies move as if there was no joint.
func (j *J) checkInert(t *pbt.T, A0, B0, A1, B1 St, gr P, damp, dt float64) {
	for _, x := range []struct {
		p      *PB
		s0, s1 St
	}{{j.a, A0, A1}, {j.b, B0, B1}} {
		w := x.s0
		if x.p.typ != cp.BODY_STATIC && !x.p.rest {
			w = w.drift(dt)
			if x.p.typ == cp.BODY_DYNAMIC {
				w = w.fall(gr, damp, dt)
			}
		}
		sameState(t, "removed-joint", fmt.Sprintf("%v without %v", x.p, j), x.s1, w, 1e-10)
	}
}
