package props

import (
	"cpverif/pbt"
)

func init() {
	register(&Prop{
		ID: "C01", Quick: 60000, Thorough: 2000000,
		Rule: "histories of 6..40 edits and steps over up to 14 bodies and 24 shapes of all kinds, types, filters, joints and both indexes; every step's pre-solve callbacks are compared with the overlap of every pair of shapes worked out from their definitions; non-trivial: at least two steps with touching pairs and an edit between them",
		Subs: []Sub{{"history", 4, c01History}, {"sleep", 2, c01Sleep}, {"crowd", 1, c01Crowd}},
	})
}

func c01History(t *pbt.T) {
	w := newWorld(t, WCfg{Units: true, Rogues: true, Joints: t.Bool(), Filters: t.Bool(), Sensors: true, Retype: t.Bool(), Kinematic: true, Mutate: t.Bool(), Hash: t.P(1, 2), Handlers: t.Int(1, 3)})
	c01Run(w, 6, 40)
}

func c01Sleep(t *pbt.T) {
	w := newWorld(t, WCfg{Units: true, Rogues: true, Sleep: true, Joints: t.Bool(), Filters: t.P(1, 3), Sensors: true, Retype: true, Kinematic: true, Hash: t.P(1, 2), Handlers: 1, NoGravity: t.P(2, 3)})
	c01Run(w, 10, 60)
}

// c01Crowd: many bodies, so that trees get deep and cells full.
func c01Crowd(t *pbt.T) {
	w := newWorld(t, WCfg{Units: true, Rogues: true, Filters: t.P(1, 3), Kinematic: true, Hash: t.Bool(), Handlers: 1, Size: t.Log(5, 40), MaxBodies: 30})
	w.cfg.MaxBodies = 30
	c01Run(w, 3, 15)
}

func c01Run(w *World, min, max int) {
	t := w.t
	rej := t.Bool()
	w.decide = func(kind byte, a, b *WShape, _ arbT) bool {
		return kind == 'b' || !rej || !w.chance('p', a, b, 1, 4)
	}
	var still []bool
	w.beforeStep = func() {
		still = still[:0]
		for _, wb := range w.bodies {
			still = append(still, wb.still())
		}
	}
	touchSteps, edits := 0, 0
	w.afterStep = func() {
		n := w.checkPairs(still)
		if n > 0 {
			touchSteps++
			if touchSteps >= 2 && edits > 0 {
				t.NonTrivial()
			}
		}
		edits = 0
	}
	w.populate()
	w.t.List(min, max, func(int) {
		if t.P(2, 5) {
			w.Edit()
			edits++
		} else {
			w.Step()
		}
	})
	w.Step()
}

// checkPairs compares the pre-solve callbacks of the last step with the
// overlaps of all pairs of shapes.
func (w *World) checkPairs(still []bool) (touching int) {
	t := w.t
	cnt := map[[2]int]int{}
	for _, e := range w.ev {
		if e.kind == 'p' {
			i, j := e.a.id, e.b.id
			if i > j {
				i, j = j, i
			}
			cnt[[2]int{i, j}]++
		}
	}
	for i, a := range w.shapes {
		for j := i + 1; j < len(w.shapes); j++ {
			b := w.shapes[j]
			n := cnt[[2]int{i, j}]
			want := w.touching(a, b)
			if still[a.wb.id] && still[b.wb.id] {
				want = 0
			}
			switch {
			case n > 1:
				t.Failf("pair-reported-twice", "step %d: %v and %v collided %d times in one step", w.step, a, b, n)
			case want == 1 && n == 0:
				t.Failf("missed-collision", "step %d: %v (%v at %v) and %v (%v at %v) overlap by %.3g but did not collide", w.step, a, a.d, a.eff.Core, b, b.d, b.eff.Core, -gapOf(a, b))
			case want == 0 && n > 0:
				t.Failf("false-collision", "step %d: %v (%v) and %v (%v) collided: gap %.3g, ruled out %v, both still %v", w.step, a, a.d, b, b.d, gapOf(a, b), w.ruledOut(a, b), still[a.wb.id] && still[b.wb.id])
			}
			if want == 1 {
				touching++
			}
		}
	}
	t.LabelIf(touching > 0, "step-with-contact")
	return
}
