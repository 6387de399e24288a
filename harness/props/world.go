package props

import (
	"fmt"
	"math"

	"cpverif/geo"
	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

// World drives a space through a generated history and keeps an independent
// record of what is in it and where.
type World struct {
	t               *pbt.T
	sp              *cp.Space
	bodies          []*WBody // bodies[0] is the space's own static body
	shapes          []*WShape
	joints          []*WJoint
	cfg             WCfg
	u               float64 // the unit of length
	hash            bool
	dt              float64
	step            int
	salt            uint64
	ev              []WEvent
	inStep          bool
	wakeInCallbacks bool
	changed         bool // something was removed or re-typed
	// decide overrides callbacks' answers (nil: always true). kind is 'b' or 'p'.
	decide func(kind byte, a, b *WShape, arb *cp.Arbiter) bool
	// onEvent runs inside every callback.
	onEvent func(kind byte, a, b *WShape, arb *cp.Arbiter)
	// beforeRemove and afterRemove frame the removal of a shape.
	afterRemove func(s *WShape)
	beforeStep  func()
	afterStep   func()
}

// WCfg says what a history may do.
type WCfg struct {
	Sleep, Joints, Filters, Sensors, Retype, Kinematic, Mutate, Hash bool
	Handlers                                                         int // number of collision types with recording handlers (0: none)
	MaxBodies                                                        int
	Size                                                             float64
	NoGravity                                                        bool
	Rogues                                                           bool // dynamic bodies in no space too
	Heavy                                                            bool // masses of any magnitude
	Units                                                            bool // lengths of any magnitude
	Tunneling                                                        bool
}

type WBody struct {
	b      *cp.Body
	id     int
	typ    int
	in     bool
	m, i   float64
	shapes []*WShape   // in the space
	rogue  bool        // kept out of the space
	loose  []*cp.Shape // attached to the body only
}

type WShape struct {
	s      *cp.Shape
	id     int
	d      Def
	wb     *WBody
	in     bool
	sensor bool
	filter cp.ShapeFilter
	ctype  int
	eff    geo.Shape // geometry as of the last update
}

type WJoint struct {
	c       *cp.Constraint
	a, b    *WBody
	kind    int
	collide bool
	in      bool
}

type WEvent struct {
	kind  byte // b p o s
	a, b  *WShape
	ret   bool
	first bool
}

func (b *WBody) String() string  { return fmt.Sprintf("body%d", b.id) }
func (s *WShape) String() string { return fmt.Sprintf("shape%d", s.id) }
func (e WEvent) String() string  { return fmt.Sprintf("%c(%v,%v)=%v", e.kind, e.a, e.b, e.ret) }

func (s *WShape) place() geo.Shape { return s.d.At(g(s.wb.b.Position()), s.wb.b.Angle()) }

// asleepOrStatic: the body's shapes are in the static index.
func (b *WBody) still() bool { return b.typ == cp.BODY_STATIC || b.b.IsSleeping() }

func newWorld(t *pbt.T, cfg WCfg) *World {
	w := &World{t: t, sp: cp.NewSpace(), cfg: cfg, salt: t.U64()}
	if w.cfg.Size == 0 {
		w.cfg.Size = t.Log(4, 14)
	}
	if w.cfg.MaxBodies == 0 {
		w.cfg.MaxBodies = 8
	}
	w.dt = []float64{1.0 / 60, 1.0 / 30, 1.0 / 120}[t.Weighted(4, 1, 1)]
	w.u = 1
	if cfg.Units && t.P(1, 6) {
		w.u = t.Log(0.01, 500)
		t.Logf("unit of length %v", w.u)
		t.LabelIf(w.u < 0.1, "tiny-world")
		t.LabelIf(w.u > 20, "huge-world")
	}
	w.cfg.Size *= w.u
	st := &WBody{b: w.sp.StaticBody, typ: cp.BODY_STATIC, in: true}
	w.bodies = append(w.bodies, st)
	if !cfg.NoGravity && t.Bool() {
		gr := P{t.F(-20, 20), t.F(-60, 20)}.Mul(w.u)
		t.Logf("gravity %v", gr)
		w.sp.SetGravity(v(gr))
	}
	if t.P(1, 4) {
		w.sp.SetDamping(t.F(0.3, 1))
	}
	w.sp.Iterations = uint(t.Int(1, 10))
	if cfg.Sleep {
		w.sp.SleepTimeThreshold = t.Real(1.5, 12) * w.dt
		w.sp.IdleSpeedThreshold = t.F(0, 3)
		t.Logf("sleep after %v s, idle below %v", w.sp.SleepTimeThreshold, w.sp.IdleSpeedThreshold)
	}
	for i := 0; i < cfg.Handlers; i++ {
		for j := i; j < cfg.Handlers; j++ {
			a, b := i, j
			if t.Bool() {
				a, b = b, a
			}
			w.record(w.sp.NewCollisionHandler(cp.CollisionType(a+1), cp.CollisionType(b+1)))
		}
	}
	if cfg.Hash && t.Bool() {
		w.useHash()
	}
	return w
}

func (w *World) record(h *cp.CollisionHandler) {
	get := func(arb *cp.Arbiter) (*WShape, *WShape) {
		a, b := arb.Shapes()
		return a.UserData.(*WShape), b.UserData.(*WShape)
	}
	h.BeginFunc = func(arb *cp.Arbiter, sp *cp.Space, _ interface{}) bool {
		a, b := get(arb)
		if w.onEvent != nil {
			w.onEvent('b', a, b, arb)
		}
		first := arb.IsFirstContact()
		r := w.decide == nil || w.decide('b', a, b, arb)
		w.ev = append(w.ev, WEvent{'b', a, b, r, first})
		return r
	}
	h.PreSolveFunc = func(arb *cp.Arbiter, sp *cp.Space, _ interface{}) bool {
		a, b := get(arb)
		if w.onEvent != nil {
			w.onEvent('p', a, b, arb)
		}
		first := arb.IsFirstContact()
		r := w.decide == nil || w.decide('p', a, b, arb)
		w.ev = append(w.ev, WEvent{'p', a, b, r, first})
		return r
	}
	h.PostSolveFunc = func(arb *cp.Arbiter, sp *cp.Space, _ interface{}) {
		a, b := get(arb)
		if w.onEvent != nil {
			w.onEvent('o', a, b, arb)
		}
		w.ev = append(w.ev, WEvent{'o', a, b, true, arb.IsFirstContact()})
	}
	h.SeparateFunc = func(arb *cp.Arbiter, sp *cp.Space, _ interface{}) {
		a, b := get(arb)
		if w.onEvent != nil {
			w.onEvent('s', a, b, arb)
		}
		w.ev = append(w.ev, WEvent{'s', a, b, true, arb.IsFirstContact()})
	}
}

// chance is a decision that depends only on the pair, the step and the salt,
// so that it does not matter in which order callbacks come.
func (w *World) chance(what byte, a, b *WShape, num, den uint64) bool {
	i, j := uint64(a.id), uint64(b.id)
	if i > j {
		i, j = j, i
	}
	return pbt.Mix(w.salt, uint64(what), i, j, uint64(w.step))%den < num
}

func (w *World) useHash() {
	dim := w.t.Log(0.5, 10) * w.u
	n := []int{1, 7, 50, 1000}[w.t.Intn(4)]
	w.t.Logf("UseSpatialHash(%v, %v)", dim, n)
	w.sp.UseSpatialHash(dim, n)
	w.hash = true
	w.t.Label("spatial-hash")
}

func genFilter(t *pbt.T) cp.ShapeFilter {
	f := cp.ShapeFilter{Group: uint(t.Weighted(3, 1, 1)), Categories: cp.ALL_CATEGORIES, Mask: cp.ALL_CATEGORIES}
	if t.Bool() {
		f.Categories = uint(t.Intn(8))
	}
	if t.Bool() {
		f.Mask = uint(t.Intn(8))
	}
	if t.P(1, 8) { // the highest bits too
		f.Categories |= 1 << 63
		f.Mask &^= 1 << 63
	}
	return f
}

func rejects(a, b cp.ShapeFilter) bool {
	if a.Group == b.Group && a.Group != 0 {
		return true
	}
	return a.Categories&b.Mask == 0 || b.Categories&a.Mask == 0
}

// newBody makes a body of a type and puts it in the space (or keeps it rogue).
func (w *World) newBody(typ int) *WBody {
	t := w.t
	wb := &WBody{id: len(w.bodies), typ: typ, m: t.Log(0.2, 20), i: t.Log(0.2, 50)}
	if w.cfg.Heavy && t.P(1, 4) {
		k := t.Log(1e-6, 1e9)
		wb.m, wb.i = wb.m*k, wb.i*k
	}
	switch typ {
	case cp.BODY_DYNAMIC:
		wb.b = cp.NewBody(wb.m, wb.i)
		wb.rogue = w.cfg.Rogues && t.P(1, 8)
		t.LabelIf(wb.rogue, "dynamic body in no space")
	case cp.BODY_KINEMATIC:
		wb.b = cp.NewKinematicBody()
		wb.rogue = t.P(1, 5)
	default:
		wb.b = cp.NewStaticBody()
		wb.rogue = t.P(1, 5)
	}
	p := genP(t, w.cfg.Size)
	wb.b.SetPosition(v(p))
	if t.P(2, 3) {
		wb.b.SetAngle(t.Angle())
	}
	if typ != cp.BODY_STATIC {
		w.kick(wb)
	}
	w.bodies = append(w.bodies, wb)
	t.Logf("%v: type %d m=%.3g i=%.3g rogue=%v %s", wb, typ, wb.m, wb.i, wb.rogue, fmtBody(wb.b))
	if !wb.rogue {
		w.sp.AddBody(wb.b)
		wb.in = true
	}
	return wb
}

func (w *World) kick(wb *WBody) {
	t := w.t
	s := []float64{2, 30, 200}[t.Weighted(3, 4, 1)]
	if t.P(1, 3) {
		s = 0
	}
	wb.b.SetVelocity(t.F(-s, s)*w.u, t.F(-s, s)*w.u)
	wb.b.SetAngularVelocity(t.F(-s, s) / 4)
}

func (w *World) newShape(wb *WBody) *WShape {
	t := w.t
	ws := &WShape{id: len(w.shapes), wb: wb, d: genDef(t, t.Log(0.5, 4)*w.u)}
	ws.s = ws.d.Make(wb.b)
	ws.s.UserData = ws
	ws.s.SetElasticity(t.F(0, 1))
	ws.s.SetFriction(t.F(0, 2))
	if w.cfg.Handlers > 0 {
		ws.ctype = 1 + t.Intn(w.cfg.Handlers)
		ws.s.SetCollisionType(cp.CollisionType(ws.ctype))
	}
	ws.filter = cp.SHAPE_FILTER_ALL
	if w.cfg.Filters && t.P(1, 2) {
		ws.filter = genFilter(t)
		ws.s.SetFilter(ws.filter)
	}
	if w.cfg.Sensors && t.P(1, 6) {
		ws.sensor = true
		ws.s.SetSensor(true)
	}
	w.shapes = append(w.shapes, ws)
	t.Logf("%v on %v: %v sensor=%v filter=%v type=%d", ws, wb, ws.d, ws.sensor, ws.filter, ws.ctype)
	w.addShape(ws)
	return ws
}

func (w *World) addShape(ws *WShape) {
	w.sp.AddShape(ws.s)
	ws.in = true
	ws.eff = ws.place()
	ws.wb.shapes = append(ws.wb.shapes, ws)
}

func (w *World) removeShape(ws *WShape) {
	w.sp.RemoveShape(ws.s)
	ws.in = false
	for i, x := range ws.wb.shapes {
		if x == ws {
			ws.wb.shapes = append(append([]*WShape(nil), ws.wb.shapes[:i]...), ws.wb.shapes[i+1:]...)
			break
		}
	}
	if w.afterRemove != nil {
		w.afterRemove(ws)
	}
}

// removeBody takes a body out of the space with its shapes and joints, in some order.
func (w *World) removeBody(wb *WBody) {
	joints := func() {
		for _, j := range w.joints {
			if j.in && (j.a == wb || j.b == wb) {
				w.removeJoint(j)
			}
		}
	}
	shapes := func() {
		for len(wb.shapes) > 0 {
			w.removeShape(wb.shapes[0])
		}
	}
	body := func() {
		w.sp.RemoveBody(wb.b)
		wb.in = false
	}
	order := [][]func(){{joints, shapes, body}, {body, shapes, joints}, {shapes, body, joints}, {body, joints, shapes}}[w.salt>>uint(wb.id%31*2)&3]
	for _, f := range order {
		f()
	}
}

func (w *World) removeJoint(j *WJoint) {
	w.sp.RemoveConstraint(j.c)
	j.in = false
}

func (w *World) newJoint(a, b *WBody) *WJoint {
	t := w.t
	j := &WJoint{a: a, b: b, kind: t.Weighted(4, 4, 4, 4, 4, 4, 1, 1, 1, 1), collide: t.P(1, 3)}
	switch j.kind {
	case 0:
		j.c = cp.NewPivotJoint(a.b, b.b, a.b.Position().Lerp(b.b.Position(), 0.5))
	case 1:
		j.c = cp.NewPinJoint(a.b, b.b, v(genP(t, w.u)), v(genP(t, w.u)))
	case 2:
		j.c = cp.NewSlideJoint(a.b, b.b, v(genP(t, w.u)), v(genP(t, w.u)), t.F(0, 3)*w.u, t.F(3, 10)*w.u)
	case 3:
		j.c = cp.NewDampedSpring(a.b, b.b, v(genP(t, w.u)), v(genP(t, w.u)), t.F(1, 5)*w.u, t.F(0, 50), t.F(0, 5))
	case 4:
		j.c = cp.NewGearJoint(a.b, b.b, b.b.Angle()-a.b.Angle(), 1)
	case 5:
		j.c = cp.NewDampedRotarySpring(a.b, b.b, t.F(-1, 1), t.F(0, 50), t.F(0, 5))
	case 6:
		j.c = cp.NewRotaryLimitJoint(a.b, b.b, -t.F(0, 3), t.F(0, 3))
	case 7:
		j.c = cp.NewRatchetJoint(a.b, b.b, t.F(-1, 1), t.F(0.2, 2))
	case 8:
		j.c = cp.NewSimpleMotor(a.b, b.b, t.F(-1, 1))
	case 9:
		j.c = cp.NewGrooveJoint(a.b, b.b, v(P{-w.u, 0}), v(P{t.F(1, 4) * w.u, t.F(-1, 1) * w.u}), v(genP(t, w.u)))
	}
	j.c.UserData = j
	if !j.collide {
		j.c.SetCollideBodies(false)
	}
	if t.P(1, 5) { // a joint is a link whatever it may do
		j.c.SetMaxForce([]float64{0, 10}[t.Intn(2)])
	}
	w.joints = append(w.joints, j)
	t.Logf("joint kind %d %v-%v collide=%v", j.kind, a, b, j.collide)
	w.sp.AddConstraint(j.c)
	j.in = true
	return j
}

// touching says whether two shapes collide by the world's own record:
// 1 yes, 0 no, -1 too close to call.
func (w *World) touching(a, b *WShape) int {
	if w.ruledOut(a, b) {
		return 0
	}
	return geomTouch(a.eff, b.eff)
}

func geomTouch(a, b geo.Shape) int {
	gap := geo.Gap(a, b)
	sc := 1.0
	for _, p := range a.Core {
		sc = math.Max(sc, p.Len())
	}
	tol := 1e-7 * sc
	switch {
	case math.IsNaN(gap):
		return -1
	case gap < -tol:
		return 1
	case gap > tol:
		return 0
	}
	return -1
}

func (w *World) ruledOut(a, b *WShape) bool {
	if a.wb == b.wb || !a.in || !b.in || rejects(a.filter, b.filter) {
		return true
	}
	for _, j := range w.joints {
		if j.in && !j.collide && (j.a == a.wb && j.b == b.wb || j.a == b.wb && j.b == a.wb) {
			return true
		}
	}
	return false
}

// Step runs one step; stillBefore tells which bodies' shapes were at rest in
// the static index when it began.
func (w *World) Step() {
	for _, wb := range w.bodies {
		p := g(wb.b.Position())
		if !p.Finite() || p.Len() > 1e6 || !g(wb.b.Velocity()).Finite() || g(wb.b.Velocity()).Len() > 1e6 || math.Abs(wb.b.AngularVelocity()) > 1e5 {
			w.t.Discard("the scene blew up")
		}
	}
	w.step++
	w.ev = w.ev[:0]
	if w.beforeStep != nil {
		w.beforeStep()
	}
	moved := make([]bool, len(w.bodies))
	for i, wb := range w.bodies {
		moved[i] = !wb.still()
	}
	w.t.Logf("step %d", w.step)
	w.inStep = true
	w.sp.Step(w.dt)
	w.inStep = false
	for i, wb := range w.bodies {
		if moved[i] {
			for _, ws := range wb.shapes {
				ws.eff = ws.place()
			}
		}
	}
	if w.afterStep != nil {
		w.afterStep()
	}
}

func (w *World) reindex(wb *WBody) {
	for _, ws := range wb.shapes {
		w.sp.ReindexShape(ws.s)
		ws.eff = ws.place()
	}
}

func (w *World) pickBody(f func(*WBody) bool) *WBody {
	var c []*WBody
	for _, b := range w.bodies {
		if f(b) {
			c = append(c, b)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[w.t.Intn(len(c))]
}

func (w *World) pickShape(f func(*WShape) bool) *WShape {
	var c []*WShape
	for _, s := range w.shapes {
		if f(s) {
			c = append(c, s)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[w.t.Intn(len(c))]
}

// populate makes the first bodies and shapes.
func (w *World) populate() {
	t := w.t
	if t.P(1, 2) {
		w.newShape(w.bodies[0])
	}
	t.List(1, w.cfg.MaxBodies, func(int) {
		typ := cp.BODY_DYNAMIC
		if w.cfg.Kinematic {
			typ = []int{cp.BODY_DYNAMIC, cp.BODY_STATIC, cp.BODY_KINEMATIC}[t.Weighted(5, 1, 1)]
		}
		b := w.newBody(typ)
		t.List(1, 2, func(int) { w.newShape(b) })
	})
	if w.cfg.Joints {
		t.List(0, 3, func(int) { w.opJoint() })
	}
}

func (w *World) opJoint() {
	a := w.pickBody(func(b *WBody) bool { return b.typ == cp.BODY_DYNAMIC && b.in })
	if a == nil {
		return
	}
	b := w.pickBody(func(b *WBody) bool { return b != a && (b.in || b.rogue) })
	if b == nil {
		return
	}
	if w.t.Bool() {
		a, b = b, a
	}
	w.newJoint(a, b)
}

// Edit performs one random change to the world, without stepping.
func (w *World) Edit() {
	t := w.t
	c := w.cfg
	on := func(b bool, n int) int {
		if b {
			return n
		}
		return 0
	}
	switch t.Weighted(
		4,                // 0 teleport
		3,                // 1 kick
		2,                // 2 add shape
		2,                // 3 remove shape
		1,                // 4 put a removed shape back
		1,                // 5 remove body
		1,                // 6 new or returning body
		on(c.Joints, 2),  // 7 add joint
		on(c.Joints, 1),  // 8 remove joint
		on(c.Retype, 2),  // 9 change type
		on(c.Filters, 2), // 10 change filter
		on(c.Sensors, 1), // 11 change sensor
		on(c.Mutate, 1),  // 12 change a shape's geometry
		on(c.Hash, 1),    // 13 switch index
		on(c.Handlers > 1, 1),
		1, // 15 reindex
		on(c.Sleep, 1)) {
	case 0:
		wb := w.pickBody(func(b *WBody) bool { return b.id > 0 })
		if wb == nil {
			return
		}
		// often next to another body
		p := genP(t, c.Size)
		if t.Bool() {
			o := w.bodies[t.Intn(len(w.bodies))]
			p = g(o.b.Position()).Add(genP(t, 2*w.u))
		}
		if t.P(1, 3) {
			p = g(wb.b.Position()).Add(genP(t, 0.05*w.u))
		}
		a := wb.b.Angle()
		wb.b.SetPosition(v(p))
		if t.Bool() {
			a = t.Angle()
			wb.b.SetAngle(a)
		}
		re := t.Weighted(3, 1) == 0
		if wb.typ != cp.BODY_STATIC {
			re = !re
		}
		t.Logf("teleport %v to %v angle %v reindex=%v", wb, p, a, re)
		if re {
			w.reindex(wb)
		}
		t.Label("op:teleport")
	case 1:
		wb := w.pickBody(func(b *WBody) bool { return b.typ != cp.BODY_STATIC })
		if wb == nil {
			return
		}
		w.kick(wb)
		t.Logf("kick %v: %s", wb, fmtBody(wb.b))
	case 2:
		wb := w.pickBody(func(b *WBody) bool { return (b.in || b.rogue) && len(b.shapes) < 4 })
		if wb != nil && len(w.shapes) < 24 {
			w.newShape(wb)
			t.Label("op:add-shape")
		}
	case 3:
		ws := w.pickShape(func(s *WShape) bool { return s.in })
		if ws != nil {
			t.Logf("remove %v", ws)
			w.removeShape(ws)
			t.Label("op:remove-shape")
		}
	case 4:
		ws := w.pickShape(func(s *WShape) bool { return !s.in && (s.wb.in || s.wb.rogue) })
		if ws != nil {
			t.Logf("add %v back", ws)
			w.addShape(ws)
			t.Label("op:readd-shape")
		}
	case 5:
		wb := w.pickBody(func(b *WBody) bool { return b.in && b.id > 0 })
		if wb != nil {
			t.Logf("remove %v with its shapes and joints", wb)
			w.removeBody(wb)
			t.Label("op:remove-body")
		}
	case 6:
		wb := w.pickBody(func(b *WBody) bool { return !b.in && !b.rogue })
		if wb != nil && t.Bool() {
			t.Logf("add %v back", wb)
			first := t.Bool()
			if first {
				w.sp.AddBody(wb.b)
				wb.in = true
			}
			for _, ws := range w.shapes {
				if ws.wb == wb && !ws.in {
					t.Logf("add %v back", ws)
					w.addShape(ws)
				}
			}
			if !first {
				w.sp.AddBody(wb.b)
				wb.in = true
			}
			t.Label("op:readd-body")
		} else if len(w.bodies) < 14 {
			typ := cp.BODY_DYNAMIC
			if c.Kinematic {
				typ = []int{cp.BODY_DYNAMIC, cp.BODY_STATIC, cp.BODY_KINEMATIC}[t.Weighted(4, 1, 1)]
			}
			w.newShape(w.newBody(typ))
		}
	case 7:
		if len(w.joints) < 10 {
			w.opJoint()
		}
	case 8:
		for _, j := range w.joints {
			if j.in && t.Bool() {
				t.Logf("remove joint %v-%v", j.a, j.b)
				w.removeJoint(j)
				t.Label("op:remove-joint")
				return
			}
		}
	case 9:
		wb := w.pickBody(func(b *WBody) bool { return (b.in || b.rogue) && b.id > 0 })
		if wb != nil && wb.rogue && !c.Rogues {
			w.setType(wb, []int{cp.BODY_STATIC, cp.BODY_KINEMATIC}[t.Intn(2)])
		} else if wb != nil {
			w.setType(wb, t.Intn(3))
		}
	case 10:
		ws := w.pickShape(func(s *WShape) bool { return s.in })
		if ws != nil {
			ws.filter = genFilter(t)
			if t.P(1, 3) {
				ws.filter = cp.SHAPE_FILTER_ALL
			}
			t.Logf("filter of %v: %v", ws, ws.filter)
			ws.s.SetFilter(ws.filter)
			t.Label("op:filter")
		}
	case 11:
		ws := w.pickShape(func(s *WShape) bool { return s.in })
		if ws != nil {
			ws.sensor = !ws.sensor
			t.Logf("sensor of %v: %v", ws, ws.sensor)
			ws.s.SetSensor(ws.sensor)
			if ws.wb.typ == cp.BODY_STATIC { // waking what lies on a static shape is left to the user
				ws.wb.b.ActivateStatic(ws.s)
			}
			t.Label("op:sensor")
		}
	case 12:
		ws := w.pickShape(func(s *WShape) bool { return s.in })
		if ws != nil {
			ws.d = mutateShape(t, ws.s, ws.d, w.u)
			t.Logf("change %v to %v", ws, ws.d)
			w.sp.ReindexShape(ws.s)
			ws.eff = ws.place()
			t.Label("op:mutate")
		}
	case 13:
		w.useHash()
		t.Label("op:switch-index")
	case 14:
		ws := w.pickShape(func(s *WShape) bool { return s.in })
		if ws != nil {
			ws.ctype = 1 + t.Intn(c.Handlers)
			t.Logf("collision type of %v: %d", ws, ws.ctype)
			ws.s.SetCollisionType(cp.CollisionType(ws.ctype))
		}
	case 15:
		wb := w.pickBody(func(b *WBody) bool { return true })
		t.Logf("reindex %v", wb)
		w.reindex(wb)
	case 16:
		wb := w.pickBody(func(b *WBody) bool { return b.typ == cp.BODY_DYNAMIC })
		if wb != nil {
			t.Logf("activate %v", wb)
			wb.b.Activate()
		}
	}
}

func (w *World) setType(wb *WBody, typ int) {
	w.t.Logf("type of %v: %d -> %d (asleep %v)", wb, wb.typ, typ, wb.b.IsSleeping())
	w.t.Label("op:set-type")
	w.t.LabelIf(wb.b.IsSleeping(), "op:set-type-of-sleeper")
	if typ != cp.BODY_DYNAMIC { // a joint needs something that can move
		for _, j := range w.joints {
			if j.in && (j.a == wb && j.b.typ != cp.BODY_DYNAMIC || j.b == wb && j.a.typ != cp.BODY_DYNAMIC) {
				w.removeJoint(j)
			}
		}
	}
	wb.b.SetType(typ)
	wb.typ = typ
	if typ == cp.BODY_DYNAMIC {
		wb.b.SetMass(wb.m)
		wb.b.SetMoment(wb.i)
	}
}

// Run plays a history of edits and steps.
func (w *World) Run(min, max, editNum, editDen int) {
	w.t.List(min, max, func(int) {
		if w.t.P(editNum, editDen) {
			w.Edit()
		} else {
			w.Step()
		}
	})
}

type arbT = *cp.Arbiter

func gapOf(a, b *WShape) float64 { return geo.Gap(a.eff, b.eff) }
