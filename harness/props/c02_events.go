package props

import (
	"cpverif/pbt"

	cp "github.com/jakecoffman/cp/v2"
)

func init() {
	register(&Prop{
		ID: "C02", Quick: 70000, Thorough: 2000000,
		Rule: "histories of edits and steps with recording handlers for every type pair, begin and pre-solve answers and Ignore calls chosen per pair and step; the callbacks of each pair are run through the event automaton with touching worked out by brute force; non-trivial: some pair went through begin, two or more steps of contact and separate",
		Subs: []Sub{{"history", 3, c02History}, {"bounce", 2, c02Bounce}, {"sleep", 3, c02Sleep}},
	})
}

func c02History(t *pbt.T) {
	w := newWorld(t, WCfg{Units: true, Rogues: true, Joints: t.P(1, 3), Filters: t.Bool(), Sensors: true, Retype: t.Bool(), Kinematic: true, Mutate: t.Bool(), Hash: t.P(1, 2), Handlers: t.Int(1, 3), MaxBodies: 6})
	c02Run(w, 8, 50, 2, 5)
}

// c02Bounce: few small bodies hopping in and out of contact, around the life of a cached contact.
func c02Bounce(t *pbt.T) {
	w := newWorld(t, WCfg{Units: true, Rogues: true, Sensors: true, Kinematic: t.Bool(), Handlers: t.Int(1, 2), MaxBodies: 3, Size: 2, Hash: t.P(1, 3)})
	c02Run(w, 10, 60, 1, 3)
}

func c02Sleep(t *pbt.T) {
	w := newWorld(t, WCfg{Units: true, Rogues: true, Sleep: true, Joints: t.Bool(), Filters: t.P(1, 3), Sensors: true, Retype: t.Bool(), Kinematic: t.Bool(), Hash: t.P(1, 3), Handlers: t.Int(1, 2), NoGravity: t.P(3, 4), MaxBodies: 5, Size: 3})
	if t.P(1, 3) {
		w.wakeInCallbacks = true
	}
	c02Run(w, 10, 60, 1, 4)
}

// pairState is the model of one pair's contact.
type pairState struct {
	active, ignored bool
	steps           int  // steps of contact since begin
	restored        bool // woken in the middle of the last step
}

type c02 struct {
	w     *World
	pairs map[[2]int]*pairState
	still []bool
	ign   map[[2]int]byte     // callback that called Ignore in this step
	data  map[[2]int]*c02Mark // user data last set on a pair's contact
}

type c02Mark struct {
	pair [2]int
	n    int
}

// userData: what a callback sets on the arbiter is seen by the later callbacks of that contact, and by no other pair's.
func (m *c02) userData(kind byte, a, b *WShape, arb arbT) {
	w, t := m.w, m.w.t
	k := pairKey(a, b)
	last := m.data[k]
	if kind == 'b' && arb.UserData == nil { // a new contact; one that comes back soon may keep its data
		last = nil
		delete(m.data, k)
	}
	got, _ := arb.UserData.(*c02Mark)
	t.Check(got == last && (got != nil || arb.UserData == nil), "user-data", "step %d: callback %q of %v and %v sees user data %v, last set for this pair is %v", w.step, kind, a, b, arb.UserData, last)
	if w.chance('u', a, b, 1, 3) {
		n := w.step
		if last != nil {
			n += last.n
			t.Label("user-data-changed")
		}
		m.data[k] = &c02Mark{k, n}
		arb.UserData = m.data[k]
	}
}

func pairKey(a, b *WShape) [2]int {
	if a.id > b.id {
		return [2]int{b.id, a.id}
	}
	return [2]int{a.id, b.id}
}

func (m *c02) state(k [2]int) *pairState {
	s := m.pairs[k]
	if s == nil {
		s = &pairState{}
		m.pairs[k] = s
	}
	return s
}

func c02Run(w *World, min, max, num, den int) {
	t := w.t
	m := &c02{w: w, pairs: map[[2]int]*pairState{}, ign: map[[2]int]byte{}, data: map[[2]int]*c02Mark{}}
	w.onEvent = m.userData
	begins, pres, ignores := t.P(1, 2), t.P(1, 2), t.P(1, 2)
	w.decide = func(kind byte, a, b *WShape, arb arbT) bool {
		if kind == 'b' {
			if begins && w.chance('b', a, b, 1, 4) {
				t.Label("begin-false")
				return false
			}
			if ignores && w.chance('i', a, b, 1, 8) {
				m.ign[pairKey(a, b)] = 'b'
				t.Label("ignore-in-begin")
				arb.Ignore()
			}
			return true
		}
		if ignores && w.chance('j', a, b, 1, 10) {
			m.ign[pairKey(a, b)] = 'p'
			t.Label("ignore-in-pre")
			return arb.Ignore() || w.chance('k', a, b, 1, 2)
		}
		return !pres || !w.chance('p', a, b, 1, 4)
	}
	if w.wakeInCallbacks {
		t.Label("wake-in-callbacks")
		w.onEvent = func(kind byte, a, b *WShape, arb arbT) {
			m.userData(kind, a, b, arb)
			if kind == 's' || !w.inStep {
				return
			}
			for _, x := range []*WShape{a, b} {
				if x.wb.b.IsSleeping() && w.chance('w', a, b, 1, 2) {
					t.Label("woken-in-callback")
					x.wb.b.Activate()
				}
			}
		}
	}
	w.beforeStep = func() {
		m.still = m.still[:0]
		for _, wb := range w.bodies {
			m.still = append(m.still, wb.still())
		}
		for k := range m.ign {
			delete(m.ign, k)
		}
	}
	w.afterStep = m.afterStep
	w.afterRemove = m.afterRemove
	w.populate()
	w.t.List(min, max, func(int) {
		if t.P(num, den) {
			w.ev = w.ev[:0]
			w.Edit()
			if len(w.ev) > 0 {
				t.Failf("event-outside-step", "an edit that removes no shape caused %v", w.ev)
			}
		} else {
			w.Step()
		}
	})
	w.Step()
}

func (m *c02) afterRemove(ws *WShape) {
	w, t := m.w, m.w.t
	got := map[[2]int]int{}
	for _, e := range w.ev {
		t.Check(e.kind == 's', "event-on-removal", "removing %v caused %v", ws, e)
		t.Check(e.a == ws || e.b == ws, "separate-of-others", "removing %v caused %v", ws, e)
		got[pairKey(e.a, e.b)]++
	}
	w.ev = w.ev[:0]
	for _, o := range w.shapes {
		if o == ws {
			continue
		}
		k := pairKey(o, ws)
		s := m.state(k)
		n := got[k]
		if s.active {
			t.Check(n == 1, "separate-on-removal", "removing %v in contact with %v: %d separate callbacks, want 1", ws, o, n)
			t.Label("separate-on-removal")
			*s = pairState{}
		} else {
			t.Check(n == 0, "separate-without-begin", "removing %v not in contact with %v: %d separate callbacks", ws, o, n)
		}
	}
}

func (m *c02) afterStep() {
	w := m.w
	by := map[[2]int][]WEvent{}
	for _, e := range w.ev {
		k := pairKey(e.a, e.b)
		by[k] = append(by[k], e)
	}
	w.ev = w.ev[:0]
	for i, a := range w.shapes {
		for j := i + 1; j < len(w.shapes); j++ {
			b := w.shapes[j]
			k := [2]int{i, j}
			ev := by[k]
			if m.pairs[k] == nil && len(ev) == 0 && (!a.in || !b.in) {
				continue
			}
			m.checkPair(a, b, m.state(k), ev)
		}
	}
}

func (m *c02) checkPair(a, b *WShape, s *pairState, ev []WEvent) {
	w, t := m.w, m.w.t
	stillBefore := m.still[a.wb.id] && m.still[b.wb.id]
	stillAfter := a.wb.still() && b.wb.still()
	touch := w.touching(a, b)
	if stillBefore {
		touch = 0
	}
	count := func(k byte) (n int) {
		for _, e := range ev {
			if e.kind == k {
				n++
			}
		}
		return
	}
	bad := func(kind, why string) {
		t.Failf(kind, "step %d: %v and %v: %s; events %v; was active %v ignored %v; touching %d; still before %v after %v; sensors %v %v", w.step, a, b, why, ev, s.active, s.ignored, touch, stillBefore, stillAfter, a.sensor, b.sensor)
	}
	nb, np, no, ns := count('b'), count('p'), count('o'), count('s')
	if !s.active {
		// nothing, or begin ...
		if nb == 0 {
			if len(ev) > 0 {
				bad("event-without-begin", "callbacks without a begin")
			}
			if touch == 1 {
				bad("no-begin", "shapes touch but no begin came")
			}
			return
		}
		if nb > 1 {
			bad("two-begins", "two begins in one step")
		}
		if ev[0].kind != 'b' {
			bad("begin-not-first", "begin did not come first")
		}
		if touch == 0 {
			bad("begin-without-touch", "begin for shapes that do not touch")
		}
		s.active = true
		s.steps = 0
		s.ignored = !ev[0].ret || false
		t.Label("begin")
		if !ev[0].first {
			bad("not-first-contact", "IsFirstContact false in begin")
		}
		m.contact(a, b, s, ev[1:], np, no, ns, true, bad)
		return
	}
	if nb > 0 {
		bad("begin-twice", "begin without a separate before it")
	}
	if touch == -1 { // either; the events tell, except for an ignored contact, where separate tells
		if ns > 0 {
			touch = 0
		} else {
			touch = 1
		}
	}
	if touch == 1 {
		m.contact(a, b, s, ev, np, no, ns, false, bad)
		return
	}
	// no contact found in this step
	if np > 0 {
		bad("pre-solve-without-touch", "pre-solve for shapes that do not touch or are asleep")
	}
	switch {
	case stillBefore && stillAfter:
		if len(ev) > 0 {
			bad("event-asleep", "callbacks for a sleeping contact")
		}
		t.Label("asleep-contact")
	case stillBefore && !stillAfter:
		// woken in the middle of the step: not a contact step, but it has not ended either
		if no > 1 {
			bad("two-posts", "two post-solves")
		}
		if no == 1 && (s.ignored || a.sensor || b.sensor) {
			bad("post-solve-of-unsolved", "post-solve of a woken contact that is not solved")
		}
		if ns > 0 {
			if geomTouch(a.eff, b.eff) == 1 && !w.ruledOut(a, b) {
				bad("separate-on-wake", "separate for shapes still touching, woken in this step")
			}
			*s = pairState{}
		}
		t.Label("woken-mid-step")
	default:
		if ns != 1 || no > 0 {
			bad("no-separate", "shapes no longer touch: want exactly one separate")
		}
		if s.steps >= 2 {
			t.NonTrivial()
		}
		t.Label("separate")
		*s = pairState{}
	}
}

// contact checks one step of contact after any begin.
func (m *c02) contact(a, b *WShape, s *pairState, ev []WEvent, np, no, ns int, fresh bool, bad func(kind, why string)) {
	w := m.w
	s.steps++
	stillAfter := a.wb.still() && b.wb.still()
	if ns > 0 {
		bad("separate-while-touching", "separate for shapes that touch")
	}
	ignoredNow := m.ign[pairKey(a, b)]
	if ignoredNow == 'b' {
		s.ignored = true
	}
	if s.ignored {
		if np > 0 || no > 0 {
			bad("callback-of-ignored", "pre- or post-solve of an ignored contact")
		}
		return
	}
	if np != 1 {
		bad("no-pre-solve", "want exactly one pre-solve in a step of contact")
	}
	pre := ev[0]
	if pre.kind != 'p' {
		bad("order", "pre-solve does not come before post-solve")
	}
	if pre.first != fresh {
		bad("first-contact", "IsFirstContact wrong in pre-solve")
	}
	if ignoredNow == 'p' {
		s.ignored = true
	}
	ma, mb := a.wb.typ != cp.BODY_DYNAMIC, b.wb.typ != cp.BODY_DYNAMIC
	solved := pre.ret && !s.ignored && !a.sensor && !b.sensor && !(ma && mb) && !stillAfter
	if solved && no != 1 {
		bad("no-post-solve", "want one post-solve for a solved contact")
	}
	if !solved && no != 0 {
		bad("post-solve-unsolved", "post-solve for a contact that is not solved")
	}
	for _, e := range ev {
		if e.kind == 'o' && e.first != fresh {
			bad("first-contact", "IsFirstContact wrong in post-solve")
		}
	}
	w.t.LabelIf(solved, "solved")
}
