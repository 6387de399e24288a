package props

import (
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C21", Quick: 5000000, Thorough: 40000000,
		Rule: "bodies with random pose, velocity, mass, moment and (through offset shapes) centre of gravity, in 1..10 setter and force calls; non-trivial: rotated, moved, and with a centre of gravity away from the origin",
		Subs: []Sub{{"body", 1, c21Body}},
	})
}

func c21Body(t *pbt.T) {
	m, I := t.Log(0.05, 100)*wide(t), t.Log(0.05, 1000)*wide(t)
	b := cp.NewBody(m, I)
	typ := cp.BODY_DYNAMIC
	if t.P(1, 5) {
		typ = cp.BODY_KINEMATIC + t.Intn(2)
		if typ == cp.BODY_KINEMATIC {
			b = cp.NewKinematicBody()
		} else {
			b = cp.NewStaticBody()
		}
	}
	var cog P
	if typ == cp.BODY_DYNAMIC && t.P(2, 3) {
		// a massive circle puts the centre of gravity at its centre
		cog = genP(t, 5)
		r := t.Log(0.1, 5)
		s := cp.NewCircle(b, r, v(cog))
		b.AddShape(s)
		s.SetMass(m)
		I = m * r * r / 2
	}
	// model
	var pos P
	var ang float64
	var vel, force P
	var w, torque float64
	com := func() P { return cog.Rot(ang).Add(pos) }
	if cog != (P{}) {
		pos = g(b.Position())
		t.Check(pos.Len() < 1e-12, "body-jumped", "adding mass moved the body to %v", pos)
	}
	check := func(what string) {
		sc := 1 + pos.Len() + vel.Len() + math.Abs(w) + cog.Len()
		tol := 1e-9 * sc
		t.Check(g(b.Position()).Dist(pos) <= tol, "position", "after %s: Position()=%v want %v", what, b.Position(), pos)
		t.Check(math.Abs(b.Angle()-ang) <= tol, "angle", "after %s: Angle()=%v want %v", what, b.Angle(), ang)
		t.Check(g(b.Rotation()).Dist(P{math.Cos(ang), math.Sin(ang)}) <= 1e-9, "rotation", "after %s: Rotation()=%v at angle %v", what, b.Rotation(), ang)
		t.Check(g(b.Velocity()).Dist(vel) <= tol, "velocity", "after %s: Velocity()=%v want %v", what, b.Velocity(), vel)
		t.Check(math.Abs(b.AngularVelocity()-w) <= tol, "spin", "after %s: AngularVelocity()=%v want %v", what, b.AngularVelocity(), w)
		t.Check(g(b.Force()).Dist(force) <= 1e-9*(1+force.Len()), "force", "after %s: Force()=%v want %v", what, b.Force(), force)
		t.Check(math.Abs(b.Torque()-torque) <= 1e-9*(1+math.Abs(torque)+force.Len()*sc)*sc, "torque", "after %s: Torque()=%v want %v", what, b.Torque(), torque)
		t.Check(b.GetType() == typ, "type", "after %s: GetType()=%v want %v", what, b.GetType(), typ)
		if typ == cp.BODY_DYNAMIC {
			t.Check(math.Abs(b.Mass()-m) <= 1e-9*m && math.Abs(b.Moment()-I) <= 1e-9*I, "mass", "after %s: Mass()=%v Moment()=%v want %v %v", what, b.Mass(), b.Moment(), m, I)
			ke := m*vel.Dot(vel) + I*w*w
			t.Check(math.Abs(b.KineticEnergy()-ke) <= 1e-8*(1+ke), "energy", "KineticEnergy()=%v want %v", b.KineticEnergy(), ke)
		}
		t.Check(g(b.CenterOfGravity()).Dist(cog) <= 1e-9*(1+cog.Len()), "cog", "CenterOfGravity()=%v want %v", b.CenterOfGravity(), cog)
		// points
		q := genP(t, 30).Mul(wide(t))
		world := q.Rot(ang).Add(pos)
		t.Check(g(b.LocalToWorld(v(q))).Dist(world) <= 1e-9*(sc+q.Len()), "local-to-world", "LocalToWorld(%v)=%v want %v (p=%v a=%v)", q, b.LocalToWorld(v(q)), world, pos, ang)
		back := q.Sub(pos).Rot(-ang)
		t.Check(g(b.WorldToLocal(v(q))).Dist(back) <= 1e-9*(sc+q.Len()), "world-to-local", "WorldToLocal(%v)=%v want %v", q, b.WorldToLocal(v(q)), back)
		r := world.Sub(com())
		pv := vel.Add(r.Left().Mul(w))
		t.Check(g(b.VelocityAtLocalPoint(v(q))).Dist(pv) <= 1e-8*sc*(1+q.Len()+sc), "velocity-at-local", "VelocityAtLocalPoint(%v)=%v want %v", q, b.VelocityAtLocalPoint(v(q)), pv)
		r = q.Sub(com())
		pv = vel.Add(r.Left().Mul(w))
		t.Check(g(b.VelocityAtWorldPoint(v(q))).Dist(pv) <= 1e-8*sc*(1+q.Len()+sc), "velocity-at-world", "VelocityAtWorldPoint(%v)=%v want %v", q, b.VelocityAtWorldPoint(v(q)), pv)
	}
	t.Logf("type=%v m=%v I=%v cog=%v", typ, m, I, cog)
	check("creation")
	t.List(1, 10, func(int) {
		switch t.Intn(11) {
		case 0:
			pos = genP(t, 50).Mul(wide(t))
			t.Logf("SetPosition %v", pos)
			b.SetPosition(v(pos))
			check("SetPosition")
		case 1:
			c := com()
			ang = t.Angle() * float64(t.Int(1, 3))
			pos = c.Sub(cog.Rot(ang)) // turning is about the centre of gravity
			t.Logf("SetAngle %v", ang)
			b.SetAngle(ang)
			check("SetAngle")
		case 2:
			vel = genP(t, 50).Mul(wide(t))
			if t.Bool() {
				b.SetVelocity(vel.X, vel.Y)
			} else {
				b.SetVelocityVector(v(vel))
			}
			check("SetVelocity")
		case 3:
			w = t.F(-10, 10) * wide(t)
			b.SetAngularVelocity(w)
			check("SetAngularVelocity")
		case 4:
			force = genP(t, 100).Mul(wide(t))
			b.SetForce(v(force))
			check("SetForce")
		case 5:
			torque = t.F(-100, 100) * wide(t)
			b.SetTorque(torque)
			check("SetTorque")
		case 6, 7:
			f, q := genP(t, 50).Mul(wide(t)), genP(t, 20).Mul(wide(t))
			wf, wq := f, q
			local := t.Bool()
			if local {
				wf, wq = f.Rot(ang), q.Rot(ang).Add(pos)
			}
			force = force.Add(wf)
			torque += wq.Sub(com()).Cross(wf)
			t.Logf("force %v at %v local=%v", f, q, local)
			if local {
				b.ApplyForceAtLocalPoint(v(f), v(q))
			} else {
				b.ApplyForceAtWorldPoint(v(f), v(q))
			}
			check("ApplyForce")
		case 8, 9:
			f, q := genP(t, 50).Mul(wide(t)), genP(t, 20).Mul(wide(t))
			wf, wq := f, q
			local := t.Bool()
			if local {
				wf, wq = f.Rot(ang), q.Rot(ang).Add(pos)
			}
			if typ == cp.BODY_DYNAMIC {
				vel = vel.Add(wf.Mul(1 / m))
				w += wq.Sub(com()).Cross(wf) / I
			}
			t.Logf("impulse %v at %v local=%v", f, q, local)
			if local {
				b.ApplyImpulseAtLocalPoint(v(f), v(q))
			} else {
				b.ApplyImpulseAtWorldPoint(v(f), v(q))
			}
			check("ApplyImpulse")
		case 10:
			if typ == cp.BODY_DYNAMIC && cog == (P{}) {
				m, I = t.Log(0.05, 100)*wide(t), t.Log(0.05, 1000)*wide(t)
				b.SetMass(m)
				b.SetMoment(I)
				check("SetMass")
			}
		}
	})
	t.NonTrivialIf(cog.Len() > 0.1 && pos.Len() > 0.1 && math.Abs(math.Sin(ang)) > 0.1)
	t.LabelIf(typ != cp.BODY_DYNAMIC, "not dynamic")
}
