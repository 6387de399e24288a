package props

import (
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{ID: "C13", Quick: 180000, Thorough: 1200000,
		Rule: "2..7 dynamic bodies with 0..2 shapes each and 0..4 joints of any kind among them, gravity, damping, forces and kicks, 1..12 steps of random dt; non-trivial: a contact or joint exchanged an impulse",
		Subs: []Sub{{"mixed", 3, func(t *pbt.T) { momentum(t, 3, true) }}, {"contacts", 2, func(t *pbt.T) { momentum(t, 1, true) }},
			{"joints", 2, func(t *pbt.T) { momentum(t, 2, true) }}, {"rotary", 1, rotaryMomentum}, {"pre-solve", 1, func(t *pbt.T) { momentum(t, 7, true) }}}})
}

// momentum: a closed set of dynamic bodies; what&1: contacts, what&2: joints, what&4: contact points rewritten in pre-solve.
func momentum(t *pbt.T, what int, sized bool) {
	sp := cp.NewSpace()
	speed := []float64{5, 30, 1}[t.Intn(3)]
	gr, damp := P{}, 1.0
	if t.P(1, 3) {
		gr = genP(t, 30)
	}
	if t.P(1, 3) {
		damp = t.Real(0.1, 1)
	}
	sp.SetGravity(v(gr))
	sp.SetDamping(damp)
	if t.P(1, 4) {
		sp.UseSpatialHash(2, 20)
	}
	sp.Iterations = uint(t.Int(1, 15))
	var xs []*PB
	infinite := false
	unlike := t.P(1, 4) // bodies of very different masses
	t.LabelIf(unlike, "very different masses")
	t.List(2, 7, func(i int) {
		x := &PB{id: i}
		if unlike {
			m := t.Log(0.001, 1e6)
			x.b = cp.NewBody(m, m*t.Log(0.1, 5))
		} else {
			x.b = cp.NewBody(t.Log(0.1, 50), t.Log(0.1, 100))
		}
		x.b.SetPosition(v(genP(t, 3)))
		if t.P(3, 4) {
			x.b.SetAngle(t.Angle())
		}
		x.b.SetVelocity(t.F(-speed, speed), t.F(-speed, speed))
		x.b.SetAngularVelocity(t.F(-speed, speed) / 3)
		sp.AddBody(x.b)
		n := t.Intn(3)
		if what == 1 && n == 0 {
			n = 1
		}
		for ; n > 0; n-- {
			d := genDef(t, 1.5)
			s := d.Make(x.b)
			sp.AddShape(s)
			s.SetElasticity(t.F(0, 1))
			s.SetFriction(t.F(0, 2))
			if t.P(1, 4) {
				s.SetSurfaceV(v(genP(t, 5)))
			}
			if t.P(1, 4) && s.Area() > 1e-3 && !unlike {
				s.SetMass(t.Log(0.1, 20))
			}
			if what&1 == 0 {
				s.SetFilter(cp.SHAPE_FILTER_NONE)
			}
			if t.P(1, 8) {
				s.SetSensor(true)
			}
			t.Logf("%v has %v mass %v", x, d, s.Mass())
		}
		if !(x.b.Moment() > 1e-3) && !unlike {
			x.b.SetMoment(1)
		}
		if t.P(1, 20) {
			x.b.SetMoment(cp.INFINITY)
			infinite = true
		}
		t.Logf("%v: m=%.6g i=%.6g cog=%v %s", x, x.b.Mass(), x.b.Moment(), x.b.CenterOfGravity(), fmtBody(x.b))
		xs = append(xs, x)
	})
	var js []*J
	if what&2 != 0 {
		t.List(0, 4, func(int) {
			a := t.Intn(len(xs))
			b := t.Intn(len(xs) - 1)
			if b >= a {
				b++
			}
			j := genJoint(t, allJoints[t.Intn(len(allJoints))], xs[a], xs[b])
			if t.P(1, 3) {
				j.setMaxForce(t.Log(1, 1e4))
			}
			j.tune(t)
			j.c.SetCollideBodies(t.Bool())
			sp.AddConstraint(j.c)
			t.Logf("%v", j)
			js = append(js, j)
		})
	}
	if what&4 != 0 {
		h := sp.NewWildcardCollisionHandler(0)
		h.PreSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool {
			set := arb.ContactPointSet()
			if t.Bool() {
				set.Normal = set.Normal.Rotate(cp.ForAngle(0.3))
			}
			arb.SetContactPointSet(&set)
			return t.P(7, 8)
		}
	}
	dt := genDt(t)
	t.List(1, 12, func(step int) {
		if t.P(1, 4) {
			dt = genDt(t)
		}
		if t.P(1, 3) {
			x := xs[t.Intn(len(xs))]
			if t.Bool() {
				x.b.SetForce(v(genP(t, 100)))
				x.b.SetTorque(t.F(-30, 30))
			} else {
				x.b.ApplyForceAtWorldPoint(v(genP(t, 100)), v(genP(t, 5)))
			}
			t.Logf("%v force %v torque %v", x, x.b.Force(), x.b.Torque())
		}
		var st []St
		for _, x := range xs {
			st = append(st, snap(x.b))
			if s := st[len(st)-1]; s.v.Len() > 1e6 || math.Abs(s.w) > 1e6 || s.c.Len() > 1e6 {
				t.Discard("blew up")
			}
		}
		sp.Step(dt)
		D := math.Pow(damp, dt)
		var dp P
		var dl, sp1, sl float64
		free := true
		for i, x := range xs {
			s0, s1 := st[i], snap(x.b)
			want := s0
			want.c = s1.c
			want = want.fall(gr, D, dt)
			dp = dp.Add(s1.v.Sub(want.v).Mul(s1.m))
			sp1 += s1.m * (s1.v.Len() + want.v.Len() + s0.v.Len())
			dl += s1.m*s1.c.Cross(s1.v.Sub(want.v)) + 0
			sl += s1.m * (1 + s1.c.Len()) * (s1.v.Len() + want.v.Len() + s0.v.Len())
			if s1.iInv != 0 {
				dl += s1.i * (s1.w - want.w)
				sl += s1.i * (math.Abs(s1.w) + math.Abs(want.w))
			}
			if s1.v.Dist(want.v) > 1e-6*(1+s1.v.Len()) || math.Abs(s1.w-want.w) > 1e-6*(1+math.Abs(s1.w)) {
				free = false
			}
		}
		for _, j := range js { // joints that fight each other exchange large impulses that cancel
			gi := math.Abs(j.c.Class.GetImpulse())
			sp1 += gi
			sl += gi
		}
		t.Check(dp.Len() <= 1e-10*sp1+1e-10, "linear-momentum", "step %d dt=%v: the bodies' total momentum changed by %v beyond gravity, damping and forces", step, dt, dp)
		if infinite {
			return
		}
		// what may turn the whole: friction of overlapping contacts, pivot and groove errors, gears
		may := 0.0
		for _, x := range xs {
			x.b.EachArbiter(func(arb *cp.Arbiter) {
				set := arb.ContactPointSet()
				J := g(arb.TotalImpulse())
				n := g(set.Normal)
				d := 0.0
				for i := 0; i < set.Count; i++ {
					pa, pb := g(set.Points[i].PointA), g(set.Points[i].PointB)
					if what&4 == 0 {
						t.Check(math.Abs(pb.Sub(pa).Cross(n)) < 1e-9*(1+pa.Len()+pb.Len()), "contact-offset", "contact points %v and %v are not one above the other along the normal %v", pa, pb, n)
					}
					d = math.Max(d, pa.Dist(pb))
				}
				s1, s2 := arb.Shapes()
				Jn := math.Abs(J.Dot(n))
				if what&4 != 0 { // a rewritten normal is no longer along the points
					may += d * Jn * (1 + s1.Friction()*s2.Friction()) / 2
				} else {
					may += d * s1.Friction() * s2.Friction() * Jn / 2 // each arbiter is seen from both bodies
				}
				t.LabelIf(Jn > 1e-6, "contact")
				if J.Len() > 1e-6 {
					t.NonTrivial()
				}
			})
		}
		for _, j := range js {
			gi := math.Abs(j.c.Class.GetImpulse())
			A, B := snap(j.a.b), snap(j.b.b)
			switch j.kind {
			case "pivot":
				may += gi * A.at(j.pa).Dist(B.at(j.pb))
			case "groove":
				ta, tb := A.at(j.ga), A.at(j.gb)
				p2 := B.at(j.pb)
				s := clampF(p2.Sub(ta).Dot(tb.Sub(ta).Unit()), 0, ta.Dist(tb))
				may += gi * ta.Add(tb.Sub(ta).Unit().Mul(s)).Dist(p2)
			case "gear":
				may += gi * math.Abs(1-1/j.ratio)
			}
			t.LabelIf(gi > 1e-6, "joint")
			t.NonTrivialIf(gi > 1e-6)
		}
		t.LabelIf(free, "free")
		t.LabelIf(may > 0.01*math.Abs(sl), "loose-bound")
		t.LabelIf(may == 0 && !free, "exact-angular")
		t.Check(math.Abs(dl) <= may*(1+1e-6)+1e-9*sl+1e-9, "angular-momentum", "step %d dt=%v: the bodies' total angular momentum changed by %v beyond applied torques; overlap, joint errors and gears explain %v", step, dt, dl, may)
	})
}

// rotaryMomentum: rotary joints alone keep linear velocities and total spin (gears: the geared sum).
func rotaryMomentum(t *pbt.T) {
	kinds := append(append([]string(nil), rotary...), "rotary-spring")
	sp := cp.NewSpace()
	var xs []*PB
	n := t.Int(2, 4)
	for i := 0; i < n; i++ {
		x := genBody(t, sp, i, cp.BODY_DYNAMIC, 5, 10)
		if x.b.Moment() >= cp.INFINITY {
			x.b.SetMoment(2)
		}
		xs = append(xs, x)
	}
	gear := t.Bool()
	ratio := 1.0
	t.List(1, 4, func(i int) {
		a := t.Intn(n)
		b := t.Intn(n - 1)
		if b >= a {
			b++
		}
		if gear && n == 2 && i > 0 {
			return
		}
		k := kinds[t.Intn(len(kinds))]
		if gear && n == 2 {
			k, a, b = "gear", 0, 1
		} else if k == "gear" {
			k = "motor"
		}
		j := genJoint(t, k, xs[a], xs[b])
		if gear && n == 2 {
			ratio = j.ratio
		}
		sp.AddConstraint(j.c)
		t.Logf("%v", j)
	})
	dt := genDt(t)
	t.List(1, 6, func(int) {
		if t.P(1, 3) {
			dt = genDt(t)
		}
		w0, w1, sc := 0.0, 0.0, 0.0
		weight := func(i int) float64 {
			if i == 0 {
				return ratio
			}
			return 1
		}
		var before []St
		for i, x := range xs {
			s := snap(x.b)
			before = append(before, s)
			w0 += s.i * s.w * weight(i)
		}
		sp.Step(dt)
		acted := false
		for i, x := range xs {
			s := snap(x.b)
			t.Check(s.v == before[i].v, "rotary-linear", "%v: a rotary joint changed its velocity from %v to %v", x, before[i].v, s.v)
			w1 += s.i * s.w * weight(i)
			sc += s.i * (math.Abs(s.w) + math.Abs(before[i].w)) * (1 + math.Abs(ratio))
			acted = acted || s.w != before[i].w
			if math.Abs(s.w) > 1e7 {
				t.Discard("blew up")
			}
		}
		t.NonTrivialIf(acted)
		t.LabelIf(acted && gear && n == 2, "gear")
		t.Check(math.Abs(w1-w0) <= 1e-9*sc+1e-9, "spin", "the total angular momentum (gears: geared) went from %v to %v", w0, w1)
	})
}
