package props

import (
	"fmt"

	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C11", Quick: 90000, Thorough: 1200000,
		Rule: "random nested programs of steps, queries, iterations and removals whose callbacks (collision handlers, joint and body functions, query, iteration and post-step callbacks) schedule post-step callbacks with few keys and start further calls; runs are compared with a first-in-first-out model; non-trivial: a callback was scheduled in a nested call or by a post-step callback, or refused",
		Subs: []Sub{{"program", 1, c11Program}},
		Pins: []Pin{{"scheduled-by-post-step", c11Nested}},
	})
}

type c11Entry struct {
	id      int
	key     interface{}
	silent  bool // nil function
	started bool
	prog    int // size of the program it runs
}

type c11 struct {
	t       *pbt.T
	sp      *cp.Space
	queue   []*c11Entry // accepted, not started
	ran     map[interface{}]bool
	n       int
	budget  int
	inCall  int    // depth of calls (step, query, iteration) whose callbacks may run
	flush   int    // post-step callbacks running
	over    []bool // per call on the stack: its post-step callbacks have begun
	bodies  []*cp.Body
	mover   *cp.Body
	dozer   *cp.Body // far from all, sleeps whenever it may
	extra   []*cp.Shape
	hooked  bool
	refused int
	nested  bool
}

var c11Key = new(int)

type c11Pt struct{ x, y int }

// cb is called in every callback that runs while the space is locked.
func (m *c11) cb(what string) {
	for i, o := range m.over {
		m.t.Check(!o, "callback-after-post-step", "%s: a callback of call %d of %d runs after its post-step callbacks began", what, i, len(m.over))
	}
	m.program(true, what, 3)
}

// call runs one call into the space that locks it.
func (m *c11) call(what string, f func()) {
	t := m.t
	m.inCall++
	saved := m.over
	m.over = append(append([]bool(nil), m.over...), false)
	if m.flush > 0 && m.inCall == 1 { // calls made by a post-step callback: only theirs can run callbacks now
		m.over = []bool{false}
	}
	outer := m.inCall == 1 && m.flush == 0
	f()
	m.over = saved
	m.inCall--
	if outer {
		for _, e := range m.queue {
			if !e.silent {
				t.Failf("never-run", "%s ended and callback %d (key %v), scheduled during it, has not run", what, e.id, e.key)
			}
		}
		m.queue = m.queue[:0]
		m.ran = map[interface{}]bool{}
	}
}

func (m *c11) schedule(where string) {
	t := m.t
	var key interface{}
	switch t.Intn(8) {
	case 0, 1:
	case 2:
		key = 1
	case 3:
		key = "1"
	case 4:
		key = c11Key
	case 5:
		key = m.mover
	case 6:
		key = c11Pt{1, t.Intn(2)}
	case 7:
		key = int64(1)
	}
	m.n++
	e := &c11Entry{id: m.n, key: key, silent: t.P(1, 12), prog: t.Intn(3)}
	clash := false
	for _, q := range m.queue {
		if key != nil && q.key == key {
			clash = true
		}
	}
	if key != nil {
		p := m.sp.PostStepCallback(key)
		if clash {
			t.Check(p != nil, "lookup", "a callback with key %v is pending and PostStepCallback does not find it", key)
		} else if !m.ran[key] {
			t.Check(p == nil, "lookup", "no callback with key %v is pending and PostStepCallback finds one", key)
		}
	}
	fn := func(sp *cp.Space, k, d interface{}) { m.run(e, sp, k, d) }
	var got bool
	if e.silent {
		got = m.sp.AddPostStepCallback(nil, key, e)
	} else {
		got = m.sp.AddPostStepCallback(fn, key, e)
	}
	t.Logf("%s: schedule callback %d with key %v (%T): %v", where, e.id, key, key, got)
	switch {
	case clash:
		t.Check(!got, "clash-accepted", "callback %d was accepted while one with the same key %v is pending", e.id, key)
		m.refused++
	case key != nil && m.ran[key]: // its namesake has run in this round: either answer
		t.Label("key-just-ran")
	default:
		t.Check(got, "refused", "callback %d with key %v was refused and none with that key is pending", e.id, key)
	}
	if got {
		m.queue = append(m.queue, e)
		if m.inCall > 1 || m.flush > 0 {
			m.nested = true
			t.LabelIf(m.flush > 0, "scheduled-by-post-step")
			t.LabelIf(m.inCall > 1, "scheduled-in-nested-call")
		}
	}
}

func (m *c11) run(e *c11Entry, sp *cp.Space, k, d interface{}) {
	t := m.t
	t.Logf("post-step callback %d runs", e.id)
	t.Check(!e.started, "run-twice", "callback %d ran a second time", e.id)
	e.started = true
	t.Check(sp == m.sp, "wrong-space", "callback %d got another space", e.id)
	t.Check(k == e.key, "wrong-key", "callback %d got key %v, was scheduled with %v", e.id, k, e.key)
	t.Check(d == interface{}(e), "wrong-data", "callback %d got other data than it was scheduled with", e.id)
	t.Check(m.flush > 0 || m.inCall <= 1, "run-early", "callback %d runs at the end of an inner call, %d deep", e.id, m.inCall)
	t.Check(m.flush == 0, "run-nested", "callback %d runs inside another post-step callback", e.id)
	for len(m.queue) > 0 && m.queue[0].silent {
		m.done(m.queue[0])
	}
	t.Check(len(m.queue) > 0 && m.queue[0] == e, "order", "callback %d runs, next in order is %v", e.id, m.first())
	m.done(e)
	for i := range m.over {
		m.over[i] = true
	}
	m.flush++
	depth := m.inCall
	m.inCall = 0
	// the space is unlocked
	m.edit()
	m.program(false, fmt.Sprintf("post-step callback %d", e.id), e.prog)
	m.inCall = depth
	m.flush--
}

func (m *c11) first() string {
	if len(m.queue) == 0 {
		return "none"
	}
	return fmt.Sprint(m.queue[0].id)
}

func (m *c11) done(e *c11Entry) {
	if e.key != nil {
		m.ran[e.key] = true
	}
	for i, q := range m.queue {
		if q == e {
			m.queue = append(m.queue[:i:i], m.queue[i+1:]...)
			return
		}
	}
}

// edit changes the space's structure, which needs it unlocked.
func (m *c11) edit() {
	t := m.t
	switch t.Intn(5) {
	case 0:
		b := m.sp.AddBody(cp.NewBody(1, 1))
		b.SetPosition(cp.Vector{X: 200 + float64(len(m.bodies))*10})
		s := m.sp.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
		m.bodies = append(m.bodies, b)
		m.extra = append(m.extra, s)
	case 1:
		if n := len(m.extra); n > 0 {
			s := m.extra[n-1]
			m.extra = m.extra[:n-1]
			m.sp.RemoveShape(s)
			m.sp.RemoveBody(s.Body())
			m.bodies = m.bodies[:len(m.bodies)-1]
		}
	case 2:
		c := cp.NewSlideJoint(m.bodies[0], m.sp.StaticBody, cp.Vector{}, cp.Vector{}, 0, 1e6)
		m.sp.AddConstraint(c)
		m.sp.RemoveConstraint(c)
	case 3:
		m.bodies[len(m.bodies)-1].EachShape(func(s *cp.Shape) { m.sp.ReindexShape(s) })
	}
}

// program does a few things in a context.
func (m *c11) program(locked bool, where string, n int) {
	t := m.t
	if m.budget <= 0 {
		return
	}
	for k := t.Intn(n + 1); k > 0 && m.budget > 0; k-- {
		m.budget--
		if t.P(3, 5) {
			m.schedule(where)
			continue
		}
		if m.dozer != nil && m.dozer.IsSleeping() && t.Bool() {
			t.Logf("%s: wake a sleeping body", where)
			t.LabelIf(locked, "woken-in-callback")
			m.dozer.Activate()
			continue
		}
		m.enter(locked)
	}
}

// enter makes a call that runs callbacks.
func (m *c11) enter(locked bool) {
	t, sp := m.t, m.sp
	once := func(what string) func() {
		done := false
		return func() {
			if !done {
				done = true
				m.cb(what)
			} else {
				for i, o := range m.over {
					t.Check(!o, "callback-after-post-step", "%s: a callback of call %d runs after its post-step callbacks began", what, i)
				}
			}
		}
	}
	all := cp.SHAPE_FILTER_ALL
	k := t.Intn(7)
	if !locked {
		k = t.Intn(10)
	}
	names := []string{"BBQuery", "SegmentQuery", "ShapeQuery", "EachBody", "EachShape", "EachConstraint", "empty BBQuery", "Step", "Step", "removal of a touching shape"}
	var probe *cp.Shape
	if k == 9 {
		probe = sp.AddShape(cp.NewCircle(m.mover, 1, cp.Vector{}))
		probe.SetSensor(true)
		probe.SetCollisionType(5)
		m.call("Step", func() { sp.Step(1.0 / 60) })
	}
	t.Logf("%s begins", names[k])
	t.Label("call:" + names[k])
	do := once(names[k])
	m.call(names[k], func() {
		switch k {
		case 0:
			sp.BBQuery(cp.NewBBForCircle(cp.Vector{}, 100), all, func(*cp.Shape, interface{}) { do() }, nil)
		case 1:
			sp.SegmentQuery(cp.Vector{X: -50}, cp.Vector{X: 50}, 1, all, func(*cp.Shape, cp.Vector, cp.Vector, float64, interface{}) { do() }, nil)
		case 2:
			b := cp.NewKinematicBody()
			sp.ShapeQuery(cp.NewCircle(b, 30, cp.Vector{}), func(*cp.Shape, *cp.ContactPointSet) { do() })
		case 3:
			sp.EachBody(func(*cp.Body) { do() })
		case 4:
			sp.EachShape(func(*cp.Shape) { do() })
		case 5:
			sp.EachConstraint(func(*cp.Constraint) { do() })
		case 6:
			sp.BBQuery(cp.NewBBForCircle(cp.Vector{X: 1e5}, 1), all, func(*cp.Shape, interface{}) { do() }, nil)
		case 7, 8:
			sp.Step(1.0 / 60)
		case 9: // separate is called for the pair
			sp.RemoveShape(probe)
		}
	})
	t.Logf("%s ends", names[k])
}

func c11Program(t *pbt.T) {
	sp := cp.NewSpace()
	m := &c11{t: t, sp: sp, ran: map[interface{}]bool{}, budget: 60}
	if t.P(1, 4) {
		sp.UseSpatialHash(5, 100)
	}
	// a pair that touches in every step, one that comes and goes, and a joint
	m.mover = sp.AddBody(cp.NewKinematicBody())
	m.mover.SetAngularVelocity(1)
	s := sp.AddShape(cp.NewCircle(m.mover, 2, cp.Vector{}))
	s.SetSensor(true)
	sp.AddShape(cp.NewCircle(sp.StaticBody, 2, cp.Vector{X: 1}))
	b := sp.AddBody(cp.NewBody(1, 1))
	sp.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
	b.SetPosition(cp.Vector{X: 20})
	sp.AddShape(cp.NewCircle(sp.StaticBody, 1, cp.Vector{X: 21.9}))
	m.bodies = append(m.bodies, b)
	hop := 0
	h := sp.NewCollisionHandler(0, 0)
	hw := sp.NewCollisionHandler(5, 0)
	for _, h := range []*cp.CollisionHandler{h, hw} {
		h.BeginFunc = func(*cp.Arbiter, *cp.Space, interface{}) bool { m.cb("begin"); return true }
		h.PreSolveFunc = func(*cp.Arbiter, *cp.Space, interface{}) bool { m.cb("pre-solve"); return true }
		h.PostSolveFunc = func(*cp.Arbiter, *cp.Space, interface{}) { m.cb("post-solve") }
		h.SeparateFunc = func(*cp.Arbiter, *cp.Space, interface{}) { m.cb("separate") }
	}
	c := cp.NewPivotJoint(b, sp.StaticBody, cp.Vector{X: 20})
	c.SetMaxForce(1e-3)
	c.PreSolve = func(*cp.Constraint, *cp.Space) { m.cb("joint pre-solve") }
	c.PostSolve = func(*cp.Constraint, *cp.Space) { m.cb("joint post-solve") }
	sp.AddConstraint(c)
	b.SetPositionUpdateFunc(func(b *cp.Body, dt float64) {
		m.cb("position function")
		cp.BodyUpdatePosition(b, dt)
		hop++
		b.SetPosition(cp.Vector{X: 20 - float64(hop%3)})
	})
	b.SetVelocityUpdateFunc(func(b *cp.Body, gr cp.Vector, damp, dt float64) {
		m.cb("velocity function")
		cp.BodyUpdateVelocity(b, gr, damp, dt)
	})
	if t.Bool() {
		sp.SleepTimeThreshold = 0.02
		sp.IdleSpeedThreshold = 1
		m.dozer = sp.AddBody(cp.NewBody(1, 1))
		m.dozer.SetPosition(cp.Vector{X: -500})
		sp.AddShape(cp.NewCircle(m.dozer, 1, cp.Vector{}))
	}
	t.List(1, 8, func(int) {
		m.budget = t.Int(5, 60)
		if t.P(1, 8) { // outside any call: runs with the next
			m.schedule("outside")
		}
		m.enter(false)
	})
	m.budget = 0
	m.call("last BBQuery", func() {
		sp.BBQuery(cp.NewBBForCircle(cp.Vector{}, 1), cp.SHAPE_FILTER_ALL, func(*cp.Shape, interface{}) {}, nil)
	})
	t.NonTrivialIf(m.nested || m.refused > 0)
	t.LabelIf(m.refused > 0, "refused-clash")
}

func c11Nested(t *pbt.T) {
	sp := cp.NewSpace()
	ran := 0
	sp.EachBody(func(*cp.Body) {})
	sp.EachShape(func(*cp.Shape) {})
	sp.AddPostStepCallback(func(sp *cp.Space, _, _ interface{}) {
		sp.AddPostStepCallback(func(*cp.Space, interface{}, interface{}) { ran++ }, nil, nil)
	}, nil, nil)
	sp.Step(1.0 / 60)
	sp.Step(1.0 / 60)
	t.Check(ran == 1, "never-run", "a callback scheduled by a post-step callback ran %d times", ran)
}
