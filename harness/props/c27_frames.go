package props

import (
	"math"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C27", Quick: 20000, Thorough: 350000,
		Rule: "groups of bodies with a contact pair, joints, springs, forces, jumps and sleeping, stepped as they are and again moved, turned with their gravity, mirrored, with scaled masses, in other units of length, or all moving on; the second motion has to be the first one seen from there, to within what tiny disturbances of the start would change; non-trivial: a group with a contact or a joint compared over three or more steps",
		Subs: []Sub{
			{"moved", 2, func(t *pbt.T) { c27(t, "moved") }},
			{"turned", 3, func(t *pbt.T) { c27(t, "turned") }},
			{"mirrored", 3, func(t *pbt.T) { c27(t, "mirrored") }},
			{"mass", 2, func(t *pbt.T) { c27(t, "mass") }},
			{"length", 2, func(t *pbt.T) { c27(t, "length") }},
			{"boost", 3, func(t *pbt.T) { c27(t, "boost") }},
			{"all", 2, func(t *pbt.T) { c27(t, "all") }},
		},
	})
}

func c27Frame(t *pbt.T, how string) Frame {
	f := plainFrame
	all := how == "all"
	if how == "moved" || all {
		s := t.Log(1, 1000)
		f.off = P{t.Real(-s, s), t.Real(-s, s)}
	}
	if how == "turned" || all {
		f.th = t.Angle()
		if t.P(1, 8) {
			f.th = t.Real(-40, 40)
		}
	}
	if how == "mirrored" || all && t.Bool() {
		f.mir = true
		if t.Bool() {
			f.th = t.Angle()
		}
	}
	if how == "mass" || all {
		f.k = t.Log(1e-3, 1e3)
	}
	if how == "length" || all && t.Bool() {
		f.unit = t.Log(0.05, 20)
	}
	if how == "boost" || all && t.Bool() {
		s := t.Log(0.5, 100)
		f.boost = P{t.Real(-s, s), t.Real(-s, s)}
		f.still = true
	}
	return f
}

func c27(t *pbt.T, how string) {
	f := c27Frame(t, how)
	t.Logf("frame: %v", f)
	c := c26GenConf(t)
	c.steps = t.Int(3, 40)
	if f.boost != (P{}) {
		c.damp = 1
		c.sleep = cp.INFINITY
	}
	t.Logf("sleep %v %v, gravity %v damping %v iterations %v dt %v", c.sleep, c.idle, c.gr, c.damp, c.iter, c.dt)
	var isles []*Isle
	t.List(1, 5, func(i int) {
		is := genIsle(t, i, P{float64(i)*130 - 200, 17}, IsleCfg{Steps: c.steps, Flat: t.P(1, 6)})
		is.log(t)
		isles = append(isles, is)
	})
	play := func(f Frame) []*IsRun {
		sp := c.space()
		sp.SetGravity(v(f.vec(g(c.gr))))
		sp.SetCollisionSlop(c.slop * f.unit)
		sp.IdleSpeedThreshold = c.idle * f.unit
		rs := make([]*IsRun, len(isles))
		for i, is := range isles {
			rs[i] = is.build(sp, f)
		}
		for s := 0; s < c.steps; s++ {
			for _, r := range rs {
				r.before(s)
			}
			sp.Step(c.dt)
			for _, r := range rs {
				r.after()
			}
		}
		return rs
	}
	base := play(plainFrame)
	for _, r := range base {
		if r.wild {
			t.Discard("an isle blew up")
		}
	}
	seen := play(f)
	var twins [][]*IsRun
	for k := 0; k < 2; k++ {
		p := plainFrame
		p.seed = uint64(k)
		for _, e := range []float64{1e-8, -1e-8} {
			p.eps = e
			twins = append(twins, play(p))
		}
	}
	for i := range isles {
		var tw []*IsRun
		for _, x := range twins {
			tw = append(tw, x[i])
		}
		c27Compare(t, how, f, c, base[i], seen[i], tw)
	}
}

func c27Compare(t *pbt.T, how string, f Frame, c *c26Conf, a, b *IsRun, tw []*IsRun) {
	dev := 0.0
	far := f.off.Len()
	for s := range a.trk {
		for _, x := range append([]*IsRun{a, b}, tw...) {
			if x.open(s, true) || f.mir && x.two >= 0 && x.two <= s {
				return
			}
			if x.edge >= 0 && x.edge <= s {
				t.Label("at-a-stop")
				return
			}
		}
		// what the start's last digits decide is left open
		for _, x := range tw {
			if x.evs[s] != a.evs[s] || x.cnt[s] != a.cnt[s] {
				t.Label("borderline")
				return
			}
			for i := range a.b {
				if x.slp[s][i] != a.slp[s][i] {
					t.Label("borderline")
					return
				}
				dev = math.Max(dev, x.trk[s][i].dist(a.trk[s][i]))
			}
		}
		if dev > 1e-4 {
			t.Label("sensitive")
			return
		}
		time := float64(s+1) * c.dt
		for i := range a.b {
			want, got := f.state(a.trk[s][i], time), b.trk[s][i]
			tol := 1e-10*(want.size()+far) + 60*dev*math.Max(1, f.unit)
			d := got.dist(want)
			t.Check(d <= tol, how+"-motion", "isle %d body %d after %d steps: the transformed scene has %v, the transformed motion is %v (%g apart, disturbances of 1e-8 grow to %g)", a.is.id, i, s+1, got, want, d, dev)
			t.Check(a.slp[s][i] == b.slp[s][i], how+"-sleep", "isle %d body %d after %d steps: asleep %v, transformed %v", a.is.id, i, s+1, a.slp[s][i], b.slp[s][i])
		}
		t.Check(a.evs[s] == b.evs[s], how+"-events", "isle %d in step %d: callbacks %q, transformed %q", a.is.id, s+1, a.evs[s], b.evs[s])
		t.Check(a.cnt[s] == b.cnt[s], how+"-contacts", "isle %d after %d steps: %d contact points, transformed %d", a.is.id, s+1, a.cnt[s], b.cnt[s])
		for i := range a.imp[s] {
			dj := 1e-9 * (1 + math.Abs(a.imp[s][i]))
			for _, x := range tw {
				dj = math.Max(dj, math.Abs(x.imp[s][i]-a.imp[s][i]))
			}
			heavy := 0.0
			for _, bo := range a.is.bodies {
				if bo.typ == cp.BODY_DYNAMIC {
					heavy = math.Max(heavy, math.Max(bo.m, math.Min(bo.i, 1e3)))
				}
			}
			tol := 60*dj + 60*dev*heavy + 1e-10*far*heavy
			k := f.k * f.unit
			if a.is.joints[i].rotary() {
				k *= f.unit
			}
			t.Check(math.Abs(math.Abs(b.imp[s][i])/k-math.Abs(a.imp[s][i])) <= tol, how+"-joint", "isle %d joint %d (%s) after %d steps: impulse %v, transformed %v (which should be %v times as large)", a.is.id, i, a.is.joints[i].kind, s+1, a.imp[s][i], b.imp[s][i], k)
		}
		if s == 2 {
			t.NonTrivialIf(len(a.is.joints) > 0)
		}
		if a.cnt[s] > 0 && s >= 2 {
			t.NonTrivial()
			t.Label("contact")
			t.LabelIf(a.cnt[s] > 1, "two-contacts")
		}
		if s == len(a.trk)-1 {
			t.Label("to-the-end")
		}
	}
}
