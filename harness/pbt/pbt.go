// Package pbt is a small property-based testing engine: every random choice a
// case makes is recorded, so a failing case can be replayed from its choice
// sequence and shrunk by editing that sequence.
package pbt

import (
	"fmt"
	"math"
	"runtime/debug"
	"sort"
	"strings"
)

// Failure is what a property panics with when it finds a violation.
type Failure struct {
	Kind string
	Msg  string
}

// Discard is what a property panics with when the generated input is outside its domain.
type discard struct{ why string }

type span struct{ start, end int }

// T is handed to a property for one case.
type T struct {
	rng     Rng
	rec     []uint64
	replay  []uint64
	isRep   bool
	spans   []span
	Labels  map[string]int
	nontriv bool
	Verbose bool
	log     strings.Builder
	known   map[string]bool
	Found   map[string]string // known findings hit
	desc    string
	Debug   bool // library built with its assertions on
}

// Rng is splitmix64.
type Rng struct{ s uint64 }

func NewRng(s uint64) Rng { return Rng{s} }
func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func Mix(a ...uint64) uint64 {
	r := Rng{0x1234567}
	for _, x := range a {
		r.s ^= x * 0xff51afd7ed558ccd
		r.s = r.Next()
	}
	return r.s
}

// draw records one choice in [0,n). gen gives the fresh value.
func (t *T) draw(n uint64, gen func() uint64) uint64 {
	var v uint64
	if t.isRep {
		if len(t.rec) < len(t.replay) {
			v = t.replay[len(t.rec)]
			if v >= n {
				v = v % n
			}
		}
	} else if gen != nil {
		v = gen()
	} else {
		v = t.rng.Next() % n
	}
	if len(t.rec) > 200000 {
		panic(discard{"too many choices"})
	}
	t.rec = append(t.rec, v)
	return v
}

// Intn is a uniform integer in [0,n).
func (t *T) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.draw(uint64(n), nil))
}

// Int is a uniform integer in [lo,hi].
func (t *T) Int(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

func (t *T) Bool() bool { return t.Intn(2) == 1 }

// P is true with probability num/den; it shrinks to false.
func (t *T) P(num, den int) bool {
	return t.draw(2, func() uint64 {
		if int(t.rng.Next()%uint64(den)) < num {
			return 1
		}
		return 0
	}) == 1
}

// Weighted picks an index with the given weights; shrinks to index 0.
func (t *T) Weighted(w ...int) int {
	return int(t.draw(uint64(len(w)), func() uint64 {
		sum := 0
		for _, x := range w {
			sum += x
		}
		k := int(t.rng.Next() % uint64(sum))
		for i, x := range w {
			if k < x {
				return uint64(i)
			}
			k -= x
		}
		return 0
	}))
}

// U64 is a raw 64 bit draw.
func (t *T) U64() uint64 { return t.draw(math.MaxUint64, nil) }

// Unit is a uniform number in [0,1) with 53 bits.
func (t *T) Unit() float64 { return float64(t.draw(1<<53, nil)) / (1 << 53) }

// Real is a uniform number in [lo,hi), never on a grid except by accident.
func (t *T) Real(lo, hi float64) float64 { return lo + (hi-lo)*t.Unit() }

// F is a number in [lo,hi]: often a whole or half number, otherwise uniform.
func (t *T) F(lo, hi float64) float64 {
	switch t.Weighted(3, 1, 6) {
	case 0:
		return t.grid(lo, hi, 1)
	case 1:
		return t.grid(lo, hi, 0.5)
	}
	return t.Real(lo, hi)
}

func (t *T) grid(lo, hi, step float64) float64 {
	a, b := math.Ceil(lo/step), math.Floor(hi/step)
	if a > b {
		return lo
	}
	n := int(b-a) + 1
	k := t.Intn(n)
	// shrink towards zero when the range holds it, else towards lo
	if a <= 0 && b >= 0 {
		// zigzag from zero
		neg, pos := int(-a), int(b)
		m := neg
		if pos < m {
			m = pos
		}
		if k <= 2*m {
			if k%2 == 1 {
				return float64((k+1)/2) * step
			}
			return float64(-(k / 2)) * step
		}
		k -= m
		if pos > neg {
			return float64(k) * step
		}
		return float64(-k) * step
	}
	return (a + float64(k)) * step
}

// Log is log-uniform in [lo,hi], both positive.
func (t *T) Log(lo, hi float64) float64 {
	return lo * math.Pow(hi/lo, t.Unit())
}

// Angle favours multiples of 45 degrees.
func (t *T) Angle() float64 {
	switch t.Weighted(2, 1, 6) {
	case 0:
		return float64(t.Intn(8)) * math.Pi / 4
	case 1:
		return float64(t.Intn(24)) * math.Pi / 12
	}
	return t.Real(-math.Pi, math.Pi)
}

// List runs f between min and max times; each run is one deletable span.
func (t *T) List(min, max int, f func(i int)) {
	target := min
	if max > min && !t.isRep {
		target = min + int(t.rng.Next()%uint64(max-min+1))
	}
	for i := 0; ; i++ {
		if i >= max {
			return
		}
		s := len(t.rec)
		if i >= min {
			more := t.draw(2, func() uint64 {
				if i < target {
					return 1
				}
				return 0
			})
			if more == 0 {
				return
			}
		}
		f(i)
		t.spans = append(t.spans, span{s, len(t.rec)})
	}
}

// Span marks the choices made by f as one unit for the shrinker.
func (t *T) Span(f func()) {
	s := len(t.rec)
	f()
	t.spans = append(t.spans, span{s, len(t.rec)})
}

func (t *T) Label(s string) { t.Labels[s]++ }
func (t *T) LabelIf(c bool, s string) {
	if c {
		t.Labels[s]++
	}
}

// NonTrivial marks this case as one that exercises the property by its stated rule.
func (t *T) NonTrivial()        { t.nontriv = true }
func (t *T) IsNonTrivial() bool { return t.nontriv }
func (t *T) NonTrivialIf(c bool) {
	if c {
		t.nontriv = true
	}
}

func (t *T) Logf(f string, a ...interface{}) {
	if t.Verbose {
		fmt.Fprintf(&t.log, f+"\n", a...)
	}
}

// Failf reports a violation. kind names the broken part and stays fixed while shrinking.
func (t *T) Failf(kind, f string, a ...interface{}) {
	panic(Failure{kind, fmt.Sprintf(f, a...)})
}

// Check fails unless ok.
func (t *T) Check(ok bool, kind, f string, a ...interface{}) {
	if !ok {
		t.Failf(kind, f, a...)
	}
}

// Discard gives this case up as outside the domain.
func (t *T) Discard(why string) { panic(discard{why}) }

// Finding reports a violation identified by key: tolerated only when the
// committed known-findings file lists the key.
func (t *T) Finding(key, f string, a ...interface{}) {
	if t.known[key] {
		if t.Found == nil {
			t.Found = map[string]string{}
		}
		t.Found[key] = fmt.Sprintf(f, a...)
		t.Label("known-finding:" + key)
		return
	}
	t.Failf(key, f, a...)
}

// Mark is the place in the case's choices reached so far.
func (t *T) Mark() int { return len(t.rec) }

// Again makes a generator that gives the choices made since a mark once more.
func (t *T) Again(mark int) *T {
	return &T{replay: append([]uint64(nil), t.rec[mark:]...), isRep: true, Labels: map[string]int{}, known: t.known, Debug: t.Debug}
}

// Result of one case.
type Result struct {
	Fail      *Failure
	Discarded string
	Choices   []uint64
	Spans     []span
	NonTriv   bool
	Labels    map[string]int
	Log       string
	Found     map[string]string
}

// Current is the case being run, for the watchdog.
var Current *T

// Env is what a run of cases needs.
type Env struct {
	Known map[string]bool
	Debug bool
}

func run(env Env, fn func(*T), t *T) (res Result) {
	Current = t
	t.Labels = map[string]int{}
	t.known = env.Known
	t.Debug = env.Debug
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Failure:
				res.Fail = &x
			case discard:
				res.Discarded = x.why
			default:
				st := string(debug.Stack())
				res.Fail = &Failure{"panic", fmt.Sprintf("panic: %v\n%s", r, trimStack(st))}
			}
		}
		res.Choices = t.rec
		res.Spans = t.spans
		res.NonTriv = t.nontriv && res.Discarded == ""
		res.Labels = t.Labels
		res.Log = t.log.String()
		res.Found = t.Found
	}()
	fn(t)
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i, l := range lines {
		if strings.HasPrefix(l, "github.com/jakecoffman/cp") || strings.HasPrefix(l, "cpverif/") {
			out = append(out, l)
			if i+1 < len(lines) {
				out = append(out, lines[i+1])
			}
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// RunSeed runs one fresh case.
func RunSeed(env Env, fn func(*T), seed uint64) Result {
	return run(env, fn, &T{rng: NewRng(seed)})
}

// Replay runs one recorded case.
func Replay(env Env, fn func(*T), choices []uint64, verbose bool) Result {
	return run(env, fn, &T{isRep: true, replay: choices, Verbose: verbose})
}

// Shrink reduces a failing choice sequence, keeping the kind of failure.
func Shrink(env Env, fn func(*T), r Result, budget int, stop func() bool) (Result, int) {
	best := r
	runs := 0
	try := func(c []uint64) bool {
		if runs >= budget || stop() {
			return false
		}
		runs++
		n := Replay(env, fn, c, false)
		if n.Fail == nil || n.Fail.Kind != best.Fail.Kind {
			return false
		}
		if less(n.Choices, best.Choices) {
			best = n
			return true
		}
		return false
	}
	for improved := true; improved && runs < budget && !stop(); {
		improved = false
		// spans, longest first
		sp := append([]span(nil), best.Spans...)
		sort.SliceStable(sp, func(i, j int) bool { return sp[i].end-sp[i].start > sp[j].end-sp[j].start })
		for k := 0; k < len(sp); k++ {
			s := sp[k]
			if s.end > len(best.Choices) || s.start >= s.end {
				continue
			}
			c := cut(best.Choices, s.start, s.end)
			if try(c) {
				improved = true
				sp = append([]span(nil), best.Spans...)
				sort.SliceStable(sp, func(i, j int) bool { return sp[i].end-sp[i].start > sp[j].end-sp[j].start })
				k = -1
			}
		}
		for _, size := range []int{16, 8, 4, 3, 2, 1} {
			for i := len(best.Choices) - size; i >= 0; i-- {
				if i+size <= len(best.Choices) && try(cut(best.Choices, i, i+size)) {
					improved = true
				}
			}
		}
		// zero, then minimise single values
		for i := 0; i < len(best.Choices); i++ {
			if best.Choices[i] == 0 {
				continue
			}
			c := append([]uint64(nil), best.Choices...)
			c[i] = 0
			if try(c) {
				improved = true
				continue
			}
			lo, hi := uint64(0), best.Choices[i]
			for k := 0; k < 60 && lo+1 < hi; k++ {
				mid := lo + (hi-lo)/2
				if i >= len(best.Choices) {
					break
				}
				c := append([]uint64(nil), best.Choices...)
				c[i] = mid
				if try(c) {
					improved = true
					hi = mid
				} else {
					lo = mid
				}
				if k > 8 && !improved {
					break
				}
			}
		}
	}
	return best, runs
}

func cut(c []uint64, i, j int) []uint64 {
	out := make([]uint64, 0, len(c))
	out = append(out, c[:i]...)
	return append(out, c[j:]...)
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Hash of a choice sequence.
func Hash(c []uint64) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range c {
		h ^= x
		h *= 1099511628211
		h ^= h >> 29
	}
	return h
}

// Choices gives the watchdog the choices so far.
func (t *T) Choices() []uint64 { return t.rec }
