package props

import (
	"fmt"
	"sort"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C03", Quick: 150000, Thorough: 6000000,
		Rule: "2..4 circles of 1..4 collision types made to touch or not step by step, with random sets of pair and wildcard handlers, each callback overridden or left default, calling wildcards explicitly or not, answering yes or no; every call's handler, argument order, user data, space, normal and bodies are compared with a dispatch model; non-trivial: a wildcard and a pair handler both called",
		Subs: []Sub{{"dispatch", 1, c03Dispatch}},
		Pins: []Pin{
			{"wildcards-both-called", func(t *pbt.T) { c03Pin(t, 0) }},
			{"post-solve-user-data", func(t *pbt.T) { c03Pin(t, 1) }},
		},
	})
}

type c03h struct {
	id     int
	h      *cp.CollisionHandler
	ta, tb int     // tb<0: wildcard
	over   [4]bool // begin, pre, post, separate overridden
	nest   [4]bool // an overridden function of a pair handler calls the wildcards itself
}

type c03m struct {
	t        *pbt.T
	sp       *cp.Space
	circles  []*cp.Shape
	pos      []P
	rad      []float64
	typ      []int
	hs       []*c03h
	log      []string
	step     int
	salt     uint64
	active   map[[2]int]bool
	ignored  map[[2]int]bool
	lastType map[[2]int][3]int // types and number of handlers when they last touched
	look     bool              // iterate bodies' contacts in callbacks and between steps
	limit    int               // only the first handlers count (negative: all)
}

const c03Kinds = "bpos"

func (m *c03m) id(s *cp.Shape) int { return s.UserData.(int) }

func (m *c03m) answer(h *c03h, kind int, i, j int) bool {
	if i > j {
		i, j = j, i
	}
	return pbt.Mix(m.salt, uint64(h.id), uint64(kind), uint64(i), uint64(j), uint64(m.step))%4 != 0
}

// entry describes one call. Pair handlers of equal types may list the shapes in either order.
func (m *c03m) entry(h *c03h, kind int, i, j int) string {
	if h.tb >= 0 && h.ta == h.tb && i > j {
		i, j = j, i
	}
	return fmt.Sprintf("%c h%d(%d,%d) shapes %d %d", c03Kinds[kind], h.id, h.ta, h.tb, i, j)
}

func (m *c03m) call(h *c03h, kind int, arb *cp.Arbiter, sp *cp.Space, ud interface{}) bool {
	t := m.t
	a, b := arb.Shapes()
	i, j := m.id(a), m.id(b)
	what := fmt.Sprintf("step %d: %c of h%d(types %d,%d) for shapes %d,%d", m.step, c03Kinds[kind], h.id, h.ta, h.tb, i, j)
	t.Check(sp == m.sp, "space-argument", "%s got another space", what)
	if got, ok := ud.(string); !ok || got != fmt.Sprint("data", h.id) {
		t.Failf("user-data", "%s got user data %T %v, want %q", what, ud, ud, fmt.Sprint("data", h.id))
	}
	ba, bb := arb.Bodies()
	t.Check(ba == a.Body() && bb == b.Body(), "bodies-order", "%s: Bodies() do not match Shapes()", what)
	if kind != 3 {
		n := g(arb.Normal())
		set := arb.ContactPointSet()
		t.Check(set.Count == arb.Count() && g(set.Normal).Dist(n) < 1e-12, "contact-set", "%s: contact set count %d normal %v, arbiter %d %v", what, set.Count, set.Normal, arb.Count(), n)
		d := m.pos[j].Sub(m.pos[i])
		if d.Len() > 1e-6 {
			t.Check(n.Dot(d) > 0, "normal-order", "%s: normal %v does not point from first shape %v to second %v", what, n, m.pos[i], m.pos[j])
			for k := 0; k < set.Count; k++ {
				t.Check(near(g(set.Points[k].PointA).Dist(m.pos[i]), m.rad[i], 1e-6) && near(g(set.Points[k].PointB).Dist(m.pos[j]), m.rad[j], 1e-6), "points-order", "%s: contact points %v %v are not on first and second shape", what, set.Points[k].PointA, set.Points[k].PointB)
			}
		}
	}
	m.log = append(m.log, m.entry(h, kind, i, j))
	if m.look && pbt.Mix(m.salt, uint64(m.step), uint64(i*8+j), uint64(kind))%2 == 0 {
		// looking at the contacts of the bodies must not change the order here or later
		m.lookAt(int(pbt.Mix(m.salt, uint64(m.step), uint64(j)) % uint64(len(m.circles))))
		m.lookAt(j)
		a2, b2 := arb.Shapes()
		t.Check(a2 == a && b2 == b, "order-after-look", "%s: order changed by iterating a body's contacts", what)
	}
	if h.tb >= 0 && h.nest[kind] {
		switch kind {
		case 0:
			arb.CallWildcardBeginA(sp)
			arb.CallWildcardBeginB(sp)
		case 1:
			arb.CallWildcardPreSolveA(sp)
			arb.CallWildcardPreSolveB(sp)
		case 2:
			arb.CallWildcardPostSolveA(sp)
			arb.CallWildcardPostSolveB(sp)
		case 3:
			arb.CallWildcardSeparateA(sp)
			arb.CallWildcardSeparateB(sp)
		}
		// calling them must leave this callback's own view alone
		a2, b2 := arb.Shapes()
		t.Check(a2 == a && b2 == b, "order-after-wildcards", "%s: order changed by calling the wildcards", what)
	}
	return m.answer(h, kind, i, j)
}

func (m *c03m) add(ta, tb int, over, nest [4]bool) {
	t := m.t
	for _, h := range m.hs {
		if h.ta == ta && h.tb == tb || tb >= 0 && h.ta == tb && h.tb == ta {
			// registering again gives the same handler
			var again *cp.CollisionHandler
			if tb < 0 {
				again = m.sp.NewWildcardCollisionHandler(cp.CollisionType(ta))
			} else {
				again = m.sp.NewCollisionHandler(cp.CollisionType(ta), cp.CollisionType(tb))
			}
			t.Check(again == h.h, "second-registration", "registering (%d,%d) again gave another handler", ta, tb)
			return
		}
	}
	h := &c03h{id: len(m.hs), ta: ta, tb: tb, over: over, nest: nest}
	if tb < 0 {
		h.h = m.sp.NewWildcardCollisionHandler(cp.CollisionType(ta))
	} else {
		h.h = m.sp.NewCollisionHandler(cp.CollisionType(ta), cp.CollisionType(tb))
	}
	t.Logf("handler h%d (%d,%d) overrides %v calls wildcards %v", h.id, ta, tb, over, nest)
	h.h.UserData = fmt.Sprint("data", h.id)
	if over[0] {
		h.h.BeginFunc = func(arb *cp.Arbiter, sp *cp.Space, ud interface{}) bool { return m.call(h, 0, arb, sp, ud) }
	}
	if over[1] {
		h.h.PreSolveFunc = func(arb *cp.Arbiter, sp *cp.Space, ud interface{}) bool { return m.call(h, 1, arb, sp, ud) }
	}
	if over[2] {
		h.h.PostSolveFunc = func(arb *cp.Arbiter, sp *cp.Space, ud interface{}) { m.call(h, 2, arb, sp, ud) }
	}
	if over[3] {
		h.h.SeparateFunc = func(arb *cp.Arbiter, sp *cp.Space, ud interface{}) { m.call(h, 3, arb, sp, ud) }
	}
	m.hs = append(m.hs, h)
}

func (m *c03m) find(ta, tb int) *c03h {
	hs := m.hs
	if m.limit >= 0 {
		hs = hs[:m.limit]
	}
	for _, h := range hs {
		if h.ta == ta && h.tb == tb || h.tb >= 0 && tb >= 0 && h.ta == tb && h.tb == ta {
			return h
		}
	}
	return nil
}

// expect gives the calls of one kind for one pair, and their answer.
func (m *c03m) expect(kind, i, j int, ti, tj int, out *[]string) bool {
	wild := func(x, y, tx int) bool {
		h := m.find(tx, -1)
		if h == nil || !h.over[kind] {
			return true
		}
		*out = append(*out, m.entry(h, kind, x, y))
		return m.answer(h, kind, x, y)
	}
	h := m.find(ti, tj)
	if h == nil {
		a := wild(i, j, ti)
		b := wild(j, i, tj)
		return a && b
	}
	if h.ta != ti {
		i, j, ti, tj = j, i, tj, ti
	}
	if !h.over[kind] {
		a := wild(i, j, ti)
		b := wild(j, i, tj)
		return a && b
	}
	*out = append(*out, m.entry(h, kind, i, j))
	if h.nest[kind] {
		wild(i, j, ti)
		wild(j, i, tj)
	}
	return m.answer(h, kind, i, j)
}

// lookAt iterates the contacts of a body.
func (m *c03m) lookAt(i int) {
	b := m.circles[i].Body()
	b.EachArbiter(func(arb *cp.Arbiter) {
		x, _ := arb.Bodies()
		m.t.Check(x == b, "each-order", "step %d: a contact of circle %d lists another body first", m.step, i)
	})
}

func newC03(t *pbt.T) *c03m {
	return &c03m{limit: -1, t: t, sp: cp.NewSpace(), active: map[[2]int]bool{}, ignored: map[[2]int]bool{}, lastType: map[[2]int][3]int{}}
}

func (m *c03m) circle(typ int, r float64) {
	b := m.sp.AddBody(cp.NewBody(1, 1))
	b.SetPositionUpdateFunc(func(*cp.Body, float64) {}) // stays where it is put
	s := m.sp.AddShape(cp.NewCircle(b, r, cp.Vector{}))
	s.UserData = len(m.circles)
	s.SetCollisionType(cp.CollisionType(typ))
	m.t.Logf("circle %d: type %d radius %v", len(m.circles), typ, r)
	m.circles = append(m.circles, s)
	m.typ = append(m.typ, typ)
	m.rad = append(m.rad, r)
	m.pos = append(m.pos, P{})
}

// stepAt puts the circles and steps; the calls are compared with the model.
func (m *c03m) stepAt(pos []P) {
	t := m.t
	m.step++
	for i, s := range m.circles {
		m.pos[i] = pos[i]
		b := s.Body()
		b.SetPosition(v(pos[i]))
		b.SetVelocity(0, 0)
		b.SetAngularVelocity(0)
	}
	m.log = m.log[:0]
	var want []string
	nwild, npair := 0, 0
	for i := range m.circles {
		for j := i + 1; j < len(m.circles); j++ {
			k := [2]int{i, j}
			if pos[i].Dist(pos[j]) < m.rad[i]+m.rad[j] {
				if !m.active[k] {
					m.active[k] = true
					m.ignored[k] = !m.expect(0, i, j, m.typ[i], m.typ[j], &want)
				}
				m.lastType[k] = [3]int{m.typ[i], m.typ[j], len(m.hs)}
				if !m.ignored[k] && m.expect(1, i, j, m.typ[i], m.typ[j], &want) {
					m.expect(2, i, j, m.typ[i], m.typ[j], &want)
				}
			} else if m.active[k] {
				m.active[k], m.ignored[k] = false, false
				// the handler in force when they last touched
				m.limit = m.lastType[k][2]
				m.expect(3, i, j, m.lastType[k][0], m.lastType[k][1], &want)
				m.limit = -1
				if m.lastType[k][2] < len(m.hs) {
					t.Label("separate-after-new-handler")
				}
			}
		}
	}
	t.Logf("step %d: positions %v", m.step, pos)
	m.sp.Step(1.0 / 60)
	got := append([]string(nil), m.log...)
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Failf("dispatch", "step %d: callbacks\n got  %v\n want %v", m.step, got, want)
	}
	for _, h := range m.hs {
		for _, e := range got {
			var kind rune
			var id int
			fmt.Sscanf(e, "%c h%d", &kind, &id)
			if id == h.id {
				if h.tb < 0 {
					nwild++
				} else {
					npair++
				}
			}
		}
	}
	t.LabelIf(nwild > 0, "wildcard-called")
	t.LabelIf(npair > 0, "pair-called")
	if nwild > 0 && npair > 0 {
		t.NonTrivial()
	}
}

func c03Dispatch(t *pbt.T) {
	m := newC03(t)
	m.salt = t.U64()
	m.look = t.Bool()
	t.LabelIf(m.look, "contacts-iterated")
	nt := t.Int(1, 4)
	n := t.Int(2, 4)
	base := []int{0, 1, 77}[t.Intn(3)] // also type 0, the default
	for i := 0; i < n; i++ {
		m.circle(base+t.Intn(nt), t.F(0.5, 2))
	}
	flags := func() (f [4]bool) {
		for i := range f {
			f[i] = t.Bool()
		}
		return
	}
	handler := func(int) {
		ta, tb := base+t.Intn(nt), base+t.Intn(nt)
		if t.Bool() {
			tb = -1
		}
		m.add(ta, tb, flags(), flags())
	}
	t.List(0, 6, handler)
	t.List(1, 6, func(int) {
		if t.P(1, 6) {
			// an answer in a later step goes to a new handler: begin it before the next contact only
			handler(0)
		}
		if t.P(1, 6) {
			k := t.Intn(n)
			m.typ[k] = base + t.Intn(nt)
			t.Logf("circle %d now has type %d", k, m.typ[k])
			m.circles[k].SetCollisionType(cp.CollisionType(m.typ[k]))
		}
		pos := make([]P, n)
		for i := range pos {
			pos[i] = P{t.F(-2.5, 2.5), t.F(-2.5, 2.5)}
		}
		// keep clear of the edge between touching and not
		for i := range pos {
			for j := 0; j < i; j++ {
				d := pos[i].Dist(pos[j])
				if d < 1e-3 || d > m.rad[i]+m.rad[j]-1e-3 && d < m.rad[i]+m.rad[j]+1e-3 {
					t.Discard("on the edge of touching")
				}
			}
		}
		m.stepAt(pos)
		if m.look {
			for i := t.Int(0, 2); i > 0; i-- {
				k := t.Intn(n)
				t.Logf("iterate the contacts of circle %d", k)
				m.lookAt(k)
			}
		}
	})
}

func c03Pin(t *pbt.T, which int) {
	m := newC03(t)
	m.circle(1, 1)
	m.circle(2, 1)
	if which == 0 {
		m.add(1, -1, [4]bool{true, true, true, true}, [4]bool{})
		m.add(2, -1, [4]bool{true, true, true, true}, [4]bool{})
		for s := uint64(0); s < 40; s++ {
			m.salt = s
			m.stepAt([]P{{0, 0}, {1, 0}})
			m.stepAt([]P{{0, 0}, {5, 0}})
		}
	} else {
		m.add(2, 1, [4]bool{true, true, true, true}, [4]bool{})
		for s := uint64(0); s < 20; s++ {
			m.salt = s
			m.stepAt([]P{{0, 0}, {1, 0}})
		}
	}
}
