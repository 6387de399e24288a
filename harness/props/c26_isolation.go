package props

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C26", Quick: 14000, Thorough: 150000,
		Rule: "random histories of edits, steps, callbacks and queries played twice in one process with other work in between, compared bit by bit; groups of bodies that nothing else reaches, stepped together with up to 900 others (added, removed and disturbed on the way), in a space used before, and in spaces of their own, one after another and side by side; non-trivial: histories with contacts, or groups that had contacts or joints",
		Subs: []Sub{{"twice", 6, c26Twice}, {"isles", 6, c26Isles}, {"reused", 3, c26Reused}, {"crowd", 1, c26Crowd}, {"parallel", 1, c26Parallel}},
	})
}

// trace is all a history showed.
type trace struct {
	lines []string
}

func (tr *trace) addf(f string, a ...interface{}) { tr.lines = append(tr.lines, fmt.Sprintf(f, a...)) }

func bits(x float64) string { return fmt.Sprintf("%x", math.Float64bits(x)) }

// c26Play plays a world's history and writes down everything that can be seen.
func c26Play(t *pbt.T, tr *trace) (contacts int) {
	cfg := WCfg{Units: true, Joints: true, Filters: true, Sensors: true, Retype: true, Kinematic: true, Mutate: true, Hash: true, Handlers: 3, Sleep: t.Bool(), MaxBodies: 10}
	w := newWorld(t, cfg)
	w.decide = func(kind byte, a, b *WShape, arb *cp.Arbiter) bool { return w.chance(kind, a, b, 9, 10) }
	touch := map[[2]int]int{}
	w.onEvent = func(kind byte, a, b *WShape, arb *cp.Arbiter) {
		set := arb.ContactPointSet()
		var s strings.Builder
		fmt.Fprintf(&s, "n=%s,%s", bits(set.Normal.X), bits(set.Normal.Y))
		for i := 0; i < set.Count; i++ {
			p := set.Points[i]
			fmt.Fprintf(&s, " %s,%s,%s", bits(p.PointA.X), bits(p.PointB.Y), bits(p.Distance))
		}
		touch[pairKey(a, b)]++
		contacts++
		w.ev = append(w.ev, WEvent{kind: kind, a: a, b: b})
		// callbacks of one pair keep their order, different pairs may mix
		tr.addf("pair %v: %c %v %v %s", pairKey(a, b), kind, a, b, s.String())
	}
	w.populate()
	t.List(4, 40, func(int) {
		start := len(tr.lines)
		switch t.Weighted(6, 3, 2) {
		case 0:
			w.Step()
		case 1:
			w.Edit()
		case 2:
			q := w.genQuery(1)
			tr.addf("%v: %s", q, c26Answer(w, q))
		}
		sortPairs(tr.lines[start:])
		tr.addf("-- %d", len(tr.lines))
		for _, wb := range w.bodies {
			b := wb.b
			p, ve, fo := b.Position(), b.Velocity(), b.Force()
			tr.addf("%v p=%s,%s a=%s v=%s,%s w=%s f=%s,%s t=%s asleep=%v", wb, bits(p.X), bits(p.Y), bits(b.Angle()), bits(ve.X), bits(ve.Y), bits(b.AngularVelocity()), bits(fo.X), bits(fo.Y), bits(b.Torque()), b.IsSleeping())
			if wb.id > 0 {
				var list []string
				b.EachArbiter(func(arb *cp.Arbiter) {
					s := fmt.Sprintf("%d:", arb.Count())
					a, c := arb.Shapes()
					s += fmt.Sprintf("%v %v ", a.UserData, c.UserData)
					j := arb.TotalImpulse()
					s += bits(j.X) + "," + bits(j.Y)
					list = append(list, s)
				})
				sort.Strings(list)
				tr.addf("%v contacts %v", wb, list)
			}
		}
		for i, j := range w.joints {
			if j.in {
				tr.addf("joint %d impulse %s", i, bits(j.c.Class.GetImpulse()))
			}
		}
	})
	return
}

// sortPairs brings the callbacks of a step into one order, keeping each pair's own.
func sortPairs(l []string) {
	key := func(s string) string {
		if strings.HasPrefix(s, "pair [") {
			return s[:strings.Index(s, "]")+1]
		}
		return s
	}
	sort.SliceStable(l, func(i, j int) bool { return key(l[i]) < key(l[j]) })
}

// c26Answer asks a query and writes the answer down; boxes and other listings
// come in any order.
func c26Answer(w *World, q *Q) string {
	var list []string
	switch q.kind {
	case 0:
		w.sp.BBQuery(cp.BB{L: q.box.L, B: q.box.B, R: q.box.R, T: q.box.T}, q.filter, func(s *cp.Shape, _ interface{}) { list = append(list, fmt.Sprint(s.UserData)) }, nil)
	case 1:
		info := w.sp.PointQueryNearest(v(q.p), q.max, q.filter)
		if info.Shape == nil {
			return "nothing"
		}
		return fmt.Sprint(info.Shape.UserData, bits(info.Point.X), bits(info.Point.Y), bits(info.Distance), bits(info.Gradient.X), bits(info.Gradient.Y))
	case 2:
		w.sp.SegmentQuery(v(q.a), v(q.b), q.r, q.filter, func(s *cp.Shape, p, n cp.Vector, al float64, _ interface{}) {
			list = append(list, fmt.Sprint(s.UserData, bits(p.X), bits(p.Y), bits(n.X), bits(n.Y), bits(al)))
		}, nil)
	case 3:
		info := w.sp.SegmentQueryFirst(v(q.a), v(q.b), q.r, q.filter)
		if info.Shape == nil {
			return "nothing"
		}
		return fmt.Sprint(info.Shape.UserData, bits(info.Point.X), bits(info.Point.Y), bits(info.Alpha))
	default:
		if q.qs == nil {
			return ""
		}
		w.sp.ShapeQuery(q.qs, func(s *cp.Shape, set *cp.ContactPointSet) {
			list = append(list, fmt.Sprint(s.UserData, set.Count, bits(set.Normal.X), bits(set.Normal.Y)))
		})
	}
	sort.Strings(list)
	return strings.Join(list, " | ")
}

func c26Twice(t *pbt.T) {
	mark := t.Mark()
	var one, two trace
	n := c26Play(t, &one)
	// the process does something else
	junk := pbt.Mix(uint64(t.Int(0, 1<<20)))
	for i := uint64(0); i < junk%40; i++ {
		cp.NewBody(1, 1)
	}
	if junk%3 == 0 {
		c26Junk(junk)
	}
	c26Play(t.Again(mark), &two)
	for i := 0; i < len(one.lines) && i < len(two.lines); i++ {
		if one.lines[i] != two.lines[i] {
			t.Failf("repeat", "the same history gave, first:\n  %s\nand the second time:\n  %s", one.lines[i], two.lines[i])
		}
	}
	t.Check(len(one.lines) == len(two.lines), "repeat", "the same history showed %d things, then %d", len(one.lines), len(two.lines))
	t.NonTrivialIf(n >= 3)
	t.LabelIf(n >= 3, "contacts")
}

// c26Junk fills and empties a space, leaving pools behind.
func c26Junk(seed uint64) {
	sp := cp.NewSpace()
	r := pbt.NewRng(seed)
	for i := 0; i < 20; i++ {
		b := sp.AddBody(cp.NewBody(1, 1))
		b.SetPosition(cp.Vector{X: float64(r.Next()%100) / 20, Y: float64(r.Next()%100) / 20})
		sp.AddShape(cp.NewCircle(b, 0.5, cp.Vector{}))
	}
	for i := 0; i < 5; i++ {
		sp.Step(0.01)
	}
}

// c26Conf is what all spaces of a case have in common.
type c26Conf struct {
	t           *pbt.T
	gr          cp.Vector
	damp        float64
	iter        uint
	sleep, idle float64
	slop, bias  float64
	dt          float64
	steps       int
}

func c26GenConf(t *pbt.T) *c26Conf {
	c := &c26Conf{t: t, damp: 1, iter: uint(t.Int(1, 12)), dt: []float64{1.0 / 60, 1.0 / 30, 1.0 / 120}[t.Intn(3)]}
	if t.Bool() {
		c.gr = v(P{t.F(-5, 5), t.F(-30, 5)})
	}
	if t.P(1, 3) {
		c.damp = t.F(0.3, 1)
	}
	c.sleep = cp.INFINITY
	if t.Bool() {
		c.sleep, c.idle = t.F(0.02, 0.3), t.F(0, 2)
	}
	c.slop, c.bias = 0.1, math.Pow(0.9, 60)
	if t.P(1, 4) {
		c.slop, c.bias = t.F(0, 0.5), math.Pow(t.F(0.5, 0.99), 60)
	}
	return c
}

func (c *c26Conf) set(sp *cp.Space) {
	sp.SetGravity(c.gr)
	sp.SetDamping(c.damp)
	sp.Iterations = c.iter
	sp.SleepTimeThreshold = c.sleep
	sp.IdleSpeedThreshold = c.idle
	sp.SetCollisionSlop(c.slop)
}

func (c *c26Conf) space() *cp.Space {
	sp := cp.NewSpace()
	c.set(sp)
	recordIsles(sp)
	return sp
}

// c26Alone plays one isle in a space of its own.
func (c *c26Conf) alone(is *Isle, born, dies int) *IsRun {
	sp := c.space()
	var r *IsRun
	for s := 0; s < dies; s++ {
		if s < born {
			sp.Step(c.dt) // the space is as old as the other
			continue
		}
		if s == born {
			r = is.build(sp, plainFrame)
		}
		r.before(s - born)
		sp.Step(c.dt)
		r.after()
	}
	return r
}

// together plays many isles in one space.
func (c *c26Conf) together(sp *cp.Space, isles []*Isle, born, dies []int) []*IsRun {
	rs := make([]*IsRun, len(isles))
	for s := 0; s < c.steps; s++ {
		for i, is := range isles {
			if s == born[i] {
				rs[i] = is.build(sp, plainFrame)
			}
			if s == dies[i] {
				rs[i].drop()
			}
		}
		for i := range isles {
			if rs[i] != nil && !rs[i].gone {
				rs[i].before(s - born[i])
			}
		}
		sp.Step(c.dt)
		for i := range isles {
			if rs[i] != nil && !rs[i].gone {
				rs[i].after()
				if rs[i].wild {
					c.t.Discard("an isle blew up") // it may reach others
				}
			}
		}
	}
	return rs
}

// sameRun compares an isle's life in two places.
func sameRun(t *pbt.T, kind, what string, a, b *IsRun, hash bool) {
	if a == nil || b == nil {
		return
	}
	n := len(a.trk)
	if len(b.trk) < n {
		n = len(b.trk)
	}
	for s := 0; s < n; s++ {
		if a.open(s, hash) || b.open(s, hash) {
			return
		}
		for i := range a.b {
			x, y := a.trk[s][i], b.trk[s][i]
			d := x.dist(y)
			t.Check(d <= 1e-7*x.size(), kind+"-motion", "%s: isle %d body %d after %d steps: alone %v, else %v (%g apart)", what, a.is.id, i, s+1, x, y, d)
			t.Check(a.slp[s][i] == b.slp[s][i], kind+"-sleep", "%s: isle %d body %d after %d steps: asleep %v alone, else %v", what, a.is.id, i, s+1, a.slp[s][i], b.slp[s][i])
		}
		t.Check(a.evs[s] == b.evs[s], kind+"-events", "%s: isle %d in step %d: callbacks %q alone, else %q", what, a.is.id, s+1, a.evs[s], b.evs[s])
		t.Check(a.cnt[s] == b.cnt[s], kind+"-contacts", "%s: isle %d after %d steps: %d contact points alone, else %d", what, a.is.id, s+1, a.cnt[s], b.cnt[s])
		for i := range a.imp[s] {
			t.Check(near(a.imp[s][i], b.imp[s][i], 1e-6), kind+"-joint", "%s: isle %d joint %d after %d steps: impulse %v alone, else %v", what, a.is.id, i, s+1, a.imp[s][i], b.imp[s][i])
		}
		if a.cnt[s] > 0 {
			t.NonTrivial()
			t.Label("contact")
			t.LabelIf(a.slp[s][0] || a.slp[s][len(a.slp[s])-1], "contact-asleep")
		}
	}
	t.NonTrivialIf(len(a.is.joints) > 0)
}

func c26Grid(i int) P { return P{float64(i%30)*130 - 2000, float64(i/30)*130 - 1000} }

func (c *c26Conf) genIsles(t *pbt.T, min, max int) (isles []*Isle, born, dies []int) {
	i := 0
	t.List(min, max, func(int) {
		is := genIsle(t, i, c26Grid(i), IsleCfg{Common: true, Steps: c.steps, Flat: true})
		is.log(t)
		b, d := 0, c.steps
		if t.P(1, 4) {
			b = t.Intn(c.steps / 2)
		}
		if t.P(1, 4) {
			d = b + 1 + t.Intn(c.steps-b)
		}
		isles, born, dies = append(isles, is), append(born, b), append(dies, d)
		i++
	})
	return
}

func c26Isles(t *pbt.T) {
	c := c26GenConf(t)
	c.steps = t.Int(5, 60)
	isles, born, dies := c.genIsles(t, 2, 12)
	sp := c.space()
	hash := t.P(1, 5)
	t.Logf("hash %v, sleep %v %v, gravity %v damping %v iterations %v dt %v", hash, c.sleep, c.idle, c.gr, c.damp, c.iter, c.dt)
	if hash {
		sp.UseSpatialHash(t.Log(1, 20), 100)
		t.Label("spatial-hash")
	}
	all := c.together(sp, isles, born, dies)
	for i, is := range isles {
		sameRun(t, "alone", "alone against together", c.alone(is, born[i], dies[i]), all[i], hash)
	}
	// two halves
	half := (len(isles) + 1) / 2
	for _, r := range [][2]int{{0, half}, {half, len(isles)}} {
		part := c.together(c.space(), isles[r[0]:r[1]], born[r[0]:r[1]], dies[r[0]:r[1]])
		for i := range part {
			sameRun(t, "split", "together against split", all[r[0]+i], part[i], hash)
		}
	}
}

// c26Reused builds isles in a space that has had another life.
func c26Reused(t *pbt.T) {
	w := newWorld(t, WCfg{Units: true, Rogues: true, Joints: true, Sensors: true, Kinematic: true, Retype: true, Hash: true, Handlers: 2, Sleep: t.Bool(), MaxBodies: 10, Size: 5})
	w.populate()
	w.Run(3, 25, 1, 4)
	for _, wb := range w.bodies[1:] {
		if wb.in {
			w.removeBody(wb)
		}
	}
	for _, j := range w.joints {
		if j.in {
			w.removeJoint(j)
		}
	}
	for _, ws := range w.shapes {
		if ws.in {
			w.removeShape(ws)
		}
	}
	for i := t.Intn(6); i > 0; i-- {
		w.sp.Step(w.dt)
	}
	n := 0
	w.sp.EachShape(func(*cp.Shape) { n++ })
	w.sp.EachBody(func(*cp.Body) { n++ })
	w.sp.EachConstraint(func(*cp.Constraint) { n++ })
	t.Check(n == 0, "leftovers", "%d things are left in a space that was emptied", n)
	c := c26GenConf(t)
	c.steps = t.Int(5, 40)
	isles, born, dies := c.genIsles(t, 1, 5)
	c.set(w.sp)
	recordIsles(w.sp)
	used := c.together(w.sp, isles, born, dies)
	fresh := c.together(c.space(), isles, born, dies)
	for i := range isles {
		sameRun(t, "reused", "new space against used space", fresh[i], used[i], w.hash)
	}
}

// c26Crowd puts so many isles into a space that buffers and tables overflow.
func c26Crowd(t *pbt.T) {
	c := c26GenConf(t)
	c.steps = t.Int(6, 14)
	c.gr = v(P{0, -10})
	// a few designs, many copies: a settled box or ball on its own ground
	n := t.Int(300, 900)
	salt := t.U64()
	var isles []*Isle
	var born, dies []int
	for i := 0; i < n; i++ {
		h := pbt.NewRng(pbt.Mix(salt, uint64(i)))
		rnd := func(a, b float64) float64 { return a + (b-a)*float64(h.Next()%100000)/100000 }
		o := c26Grid(i)
		is := &Isle{id: i, home: o, pair: [2]int{1, 0}}
		ground := Def{Kind: "segment", Pts: []P{{-5, 0}, {5, rnd(-0.5, 0.5)}}, R: rnd(0, 0.3)}
		w := rnd(0.5, 2)
		box := Def{Kind: "box", W: w, H: w, Pts: []P{{-w / 2, -w / 2}, {w / 2, -w / 2}, {w / 2, w / 2}, {-w / 2, w / 2}}}
		if h.Next()%4 == 0 {
			box = Def{Kind: "circle", R: w / 2, Pts: []P{{}}}
		}
		is.bodies = append(is.bodies, IsBody{typ: cp.BODY_STATIC, p: o, d: &ground, u: 0.7, e: 0})
		is.bodies = append(is.bodies, IsBody{typ: cp.BODY_DYNAMIC, m: rnd(0.5, 3), i: rnd(0.5, 3), p: o.Add(P{rnd(-2, 2), w/2 + rnd(-0.1, 0.1)}), v: P{rnd(-3, 3), rnd(-1, 0)}, w: rnd(-0.3, 0.3), d: &box, u: rnd(0, 1), e: rnd(0, 0.5)})
		isles = append(isles, is)
		b, d := 0, c.steps
		if h.Next()%8 == 0 {
			b = int(h.Next() % uint64(c.steps/2))
		}
		if h.Next()%8 == 0 {
			d = b + 1 + int(h.Next()%uint64(c.steps-b))
		}
		born, dies = append(born, b), append(dies, d)
	}
	all := c.together(c.space(), isles, born, dies)
	max := 0
	for s := 0; s < c.steps; s++ {
		k := 0
		for i, r := range all {
			if r != nil && s >= born[i] && s-born[i] < len(r.cnt) {
				k += r.cnt[s-born[i]]
			}
		}
		if k > max {
			max = k
		}
	}
	t.LabelIf(max > 1024, "over-1024-contacts")
	pick := pbt.NewRng(salt)
	for k := 0; k < 24; k++ {
		i := int(pick.Next() % uint64(n))
		if born[i] >= c.steps {
			continue
		}
		sameRun(t, "crowd", fmt.Sprintf("alone against %d others", n-1), c.alone(isles[i], born[i], dies[i]), all[i], false)
	}
}

// c26Parallel steps separate spaces side by side.
func c26Parallel(t *pbt.T) {
	c := c26GenConf(t)
	c.steps = t.Int(5, 30)
	isles, born, dies := c.genIsles(t, 3, 8)
	side := make([]*IsRun, len(isles))
	errs := make([]interface{}, len(isles))
	spaces := make([]*cp.Space, len(isles))
	runs := make([]*IsRun, len(isles))
	for i, is := range isles { // built one after another: only stepping is claimed to be independent
		spaces[i] = c.space()
		runs[i] = is.build(spaces[i], plainFrame)
		_ = born
	}
	var wg sync.WaitGroup
	for i := range isles {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { errs[i] = recover() }()
			for s := 0; s < dies[i]-born[i]; s++ {
				runs[i].before(s)
				spaces[i].Step(c.dt)
				runs[i].after()
			}
			side[i] = runs[i]
		}(i)
	}
	wg.Wait()
	for i, is := range isles {
		t.Check(errs[i] == nil, "parallel-panic", "a space stepped beside others panicked: %v", errs[i])
		sameRun(t, "parallel", "one after another against side by side", c.alone(is, 0, dies[i]-born[i]), side[i], false)
	}
}
