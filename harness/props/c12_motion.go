package props

import (
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C12", Quick: 250000, Thorough: 3000000,
		Rule: "1..5 non-colliding bodies of every type (some kept out of the space, some with an offset centre of gravity, infinite moment or custom functions), 2..14 steps of random dt (zero included) with random forces, impulses, setters, gravity, damping and sleeping changed in between; non-trivial: a dynamic body with a force or torque went through a step under gravity or damping",
		Subs: []Sub{{"motion", 1, c12Motion}},
	})
}

type c12Body struct {
	*PB
	in          bool
	vmode       int // 0 default, 1 custom that calls the default, 2 custom of its own
	pmode       int
	nv, np      int // calls seen in the step
	wrong       string
	vafterp     bool
	custG, newV P
	newW        float64
}

func c12Motion(t *pbt.T) {
	sp := cp.NewSpace()
	var gr P
	damp := 1.0
	if t.P(2, 3) {
		gr = P{t.F(-30, 30), t.F(-100, 30)}
		sp.SetGravity(v(gr))
	}
	if t.Bool() {
		damp = t.F(0, 1)
		sp.SetDamping(damp)
	}
	if t.P(1, 4) {
		sp.SleepTimeThreshold = t.Real(0.01, 0.3)
		sp.IdleSpeedThreshold = t.F(0, 20)
	}
	dt := genDt(t)
	var bs []*c12Body
	stepDt := 0.0
	stepG := P{}
	add := func() {
		x := &c12Body{in: !t.P(1, 8)}
		space := sp
		if !x.in {
			space = nil
		}
		x.PB = genBody(t, space, len(bs), []int{cp.BODY_DYNAMIC, cp.BODY_KINEMATIC, cp.BODY_STATIC}[t.Weighted(6, 2, 1)], 20, 40)
		if x.typ == cp.BODY_STATIC && t.Bool() { // a static body can be given a velocity, and still stays
			x.b.SetVelocity(t.F(-5, 5), t.F(-5, 5))
			x.b.SetAngularVelocity(t.F(-2, 2))
		}
		if t.P(1, 4) {
			x.vmode = 1 + t.Intn(2)
			x.custG, x.newV, x.newW = genP(t, 20), genP(t, 20), t.F(-5, 5)
			x.b.SetVelocityUpdateFunc(func(b *cp.Body, gravity cp.Vector, damping, d float64) {
				x.nv++
				x.vafterp = x.vafterp || x.np == 0 && x.pmode != 0
				if b != x.b || g(gravity) != stepG || math.Abs(damping-math.Pow(damp, stepDt)) > 1e-12 || d != stepDt {
					x.wrong = "velocity function called with wrong arguments"
				}
				if x.vmode == 1 {
					if x.newW > 0 {
						b.UpdateVelocity(v(x.custG), damping, d)
					} else {
						cp.BodyUpdateVelocity(b, v(x.custG), damping, d)
					}
				} else {
					b.SetVelocityVector(v(x.newV))
					b.SetAngularVelocity(x.newW)
				}
			})
			t.Label("custom-velocity-func")
		}
		if t.P(1, 6) {
			x.pmode = 1 + t.Intn(2)
			x.b.SetPositionUpdateFunc(func(b *cp.Body, d float64) {
				x.np++
				if b != x.b || d != stepDt || x.nv != 0 {
					x.wrong = "position function called with wrong arguments or after the velocity function"
				}
				if x.pmode == 1 {
					cp.BodyUpdatePosition(b, 2*d)
				}
			})
			t.Label("custom-position-func")
		}
		if t.P(1, 4) {
			s := cp.NewCircle(x.b, t.Log(0.2, 5), v(genP(t, 1)))
			s.SetFilter(cp.SHAPE_FILTER_NONE)
			if x.in {
				sp.AddShape(s)
			} else {
				x.b.AddShape(s)
			}
		}
		bs = append(bs, x)
	}
	t.List(1, 5, func(int) { add() })
	n := 0
	t.List(2, 14, func(int) {
		// disturb
		t.List(0, 3, func(int) {
			x := bs[t.Intn(len(bs))]
			switch t.Intn(13) {
			case 0:
				x.b.SetForce(v(genP(t, 100).Mul(wide(t))))
			case 1:
				x.b.SetTorque(t.F(-100, 100) * wide(t))
			case 2:
				x.b.ApplyForceAtWorldPoint(v(genP(t, 100).Mul(wide(t))), v(genP(t, 20).Mul(wide(t))))
			case 3:
				x.b.ApplyForceAtLocalPoint(v(genP(t, 100).Mul(wide(t))), v(genP(t, 3).Mul(wide(t))))
			case 4:
				x.b.ApplyImpulseAtWorldPoint(v(genP(t, 100).Mul(wide(t))), v(genP(t, 20).Mul(wide(t))))
			case 5:
				x.b.ApplyImpulseAtLocalPoint(v(genP(t, 100).Mul(wide(t))), v(genP(t, 3).Mul(wide(t))))
			case 6:
				x.b.SetVelocityVector(v(genP(t, 30).Mul(wide(t))))
			case 7:
				x.b.SetAngularVelocity(t.F(-10, 10) * wide(t))
			case 8:
				x.b.SetPosition(v(genP(t, 20).Mul(wide(t))))
			case 9:
				x.b.SetAngle(t.Angle())
			case 10:
				gr = genP(t, 60).Mul(wide(t))
				sp.SetGravity(v(gr))
			case 11:
				damp = t.F(0, 1)
				sp.SetDamping(damp)
			case 12:
				if x.in && t.P(1, 3) {
					typ := t.Intn(3)
					m, i := t.Log(0.1, 50), t.Log(0.1, 50)
					v0, w0 := x.b.Velocity(), x.b.AngularVelocity()
					x.b.SetType(typ)
					if typ == cp.BODY_STATIC && x.typ != cp.BODY_STATIC { // it stands from now on
						t.LabelIf(v0 != (cp.Vector{}), "moving-made-static")
						v0, w0 = cp.Vector{}, 0
					}
					t.Check(typ == cp.BODY_KINEMATIC || x.b.Velocity() == v0 && x.b.AngularVelocity() == w0, "type-velocity", "%v made type %d has velocity %v and spin %v, want %v and %v", x, typ, x.b.Velocity(), x.b.AngularVelocity(), v0, w0)
					x.typ = typ
					if typ == cp.BODY_DYNAMIC {
						x.b.SetMass(m)
						x.b.SetMoment(i)
					}
					t.Logf("%v is now type %d", x, typ)
				}
			}
		})
		if t.P(1, 3) {
			dt = genDt(t)
		}
		d := dt
		if t.P(1, 12) {
			d = 0
			t.Label("dt=0")
		}
		before := make([]St, len(bs))
		asleep := make([]bool, len(bs))
		pos := make([]P, len(bs))
		for i, x := range bs {
			before[i], asleep[i], pos[i] = snap(x.b), x.b.IsSleeping(), g(x.b.Position())
			x.nv, x.np, x.wrong, x.vafterp = 0, 0, "", false
			if before[i].c.Len() > 1e6 || before[i].v.Len() > 1e5 || math.Abs(before[i].w) > 1e5 {
				t.Discard("blew up")
			}
			t.NonTrivialIf(n > 0 && x.in && x.typ == cp.BODY_DYNAMIC && d > 0 && before[i].f != (P{}) && (gr != (P{}) || damp != 1))
		}
		stepDt, stepG = d, gr
		t.Logf("step dt=%v gravity=%v damping=%v", d, gr, damp)
		t.Check(g(sp.Gravity()) == gr && sp.Damping() == damp, "getter", "gravity %v damping %v, set %v and %v", sp.Gravity(), sp.Damping(), gr, damp)
		sp.Step(d)
		t.Check(d == 0 || sp.TimeStep() == d, "getter", "TimeStep() is %v after a step of %v", sp.TimeStep(), d)
		n++
		for i, x := range bs {
			want := before[i]
			calls := 0
			moving := x.in && !asleep[i] && x.typ != cp.BODY_STATIC && d > 0
			slept := !asleep[i] && x.b.IsSleeping()
			t.LabelIf(slept, "fell-asleep")
			if moving {
				switch x.pmode {
				case 0:
					want = want.drift(d)
				case 1:
					want = want.drift(2 * d)
				}
				calls = 1
				if !slept {
					switch {
					case x.vmode == 2:
						want.v, want.w = x.newV, x.newW
					case x.typ == cp.BODY_KINEMATIC:
					case x.vmode == 1:
						want = want.fall(x.custG, math.Pow(damp, d), d)
					default:
						want = want.fall(gr, math.Pow(damp, d), d)
					}
				}
			}
			got := snap(x.b)
			sameState(t, "motion", x.String(), got, want, 1e-11)
			sc := 1e-10 * (1 + want.f.Len() + math.Abs(want.t))
			t.Check(got.f.Dist(want.f) <= sc && math.Abs(got.t-want.t) <= sc, "force-cleared", "%v: force %v torque %v after the step, want %v %v", x, got.f, got.t, want.f, want.t)
			if !moving {
				t.Check(g(x.b.Position()) == pos[i] && got.a == before[i].a && got.v == before[i].v && got.w == before[i].w, "moved-at-rest", "%v should not have moved at all", x)
			}
			t.Check(x.wrong == "", "custom-function", "%v: %s", x, x.wrong)
			if x.vmode != 0 {
				wantV := calls
				if slept {
					wantV = 0
				}
				t.Check(x.nv == wantV, "custom-velocity-calls", "%v: velocity function called %d times, want %d", x, x.nv, wantV)
			}
			if x.pmode != 0 {
				t.Check(x.np == calls, "custom-position-calls", "%v: position function called %d times, want %d", x, x.np, calls)
			}
		}
	})
}
