// cpverif runs the generated-input checks of /verif/properties.jsonl.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"cpverif/pbt"
	"cpverif/props"
)

// Stats is what one worker prints.
type Stats struct {
	Evaluations int
	NonTrivial  int
	Discarded   int
	Labels      map[string]int
	Samples     []string
	Found       map[string]string
	Pins        []string
	Fail        *FailRec
}

// FailRec is a failing case; it is also the replay file.
type FailRec struct {
	Property   string
	Debug      bool
	Pin        string   `json:",omitempty"`
	Choices    []uint64 `json:",omitempty"`
	CaseSeed   uint64   `json:",omitempty"`
	Kind       string
	Message    string
	Log        string
	ShrinkRuns int
	Original   int
}

var caseIdx int64 = -1

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	f := func(t syscall.Timeval) float64 { return float64(t.Sec) + float64(t.Usec)/1e6 }
	return f(ru.Utime) + f(ru.Stime)
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, r int64
	fmt.Sscan(string(b), &a, &r)
	return r * 4096
}

// watch ends the process when one case takes too much processor time or memory.
func watch(limit float64, maxRSS int64) {
	last := int64(-2)
	var start float64
	for {
		time.Sleep(200 * time.Millisecond)
		c := atomic.LoadInt64(&caseIdx)
		now := cpuSeconds()
		if c != last {
			last, start = c, now
			continue
		}
		if now-start > limit {
			fmt.Fprintf(os.Stderr, "\nWATCHDOG: case %d used more than %.0fs of processor time\n", c, limit)
			os.Exit(97)
		}
		if rssBytes() > maxRSS {
			fmt.Fprintf(os.Stderr, "\nWATCHDOG: case %d used more than %d bytes of memory\n", c, maxRSS)
			os.Exit(98)
		}
	}
}

func readKnown(path string) map[string]bool {
	known := map[string]bool{}
	f, err := os.Open(path)
	if err != nil {
		return known
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		// known: property=<id> key=<key> what fails
		if len(w) >= 3 && w[0] == "known:" && strings.HasPrefix(w[2], "key=") {
			known[strings.TrimPrefix(w[2], "key=")] = true
		}
	}
	return known
}

func main() {
	prop := flag.String("prop", "", "property id")
	seed := flag.Uint64("seed", 1, "VERIF_SEED")
	worker := flag.Int("worker", 0, "worker number")
	cases := flag.Int("cases", 1000, "cases for this worker")
	dbg := flag.Bool("debugbuild", false, "built with -tags debug")
	knownFile := flag.String("known", "", "known findings file")
	progress := flag.String("progress", "", "progress file")
	hashes := flag.String("hashes", "", "file for hashes of non-trivial cases")
	replay := flag.String("replay", "", "replay file")
	one := flag.Uint64("case", 0, "run only the case with this seed")
	pins := flag.Bool("pins", false, "run the fixed scenarios")
	limit := flag.Float64("limit", 20, "processor seconds for one case")
	info := flag.Bool("info", false, "print properties as JSON")
	only := flag.String("only", "", "run only this sub-check")
	noshrink := flag.Bool("noshrink", false, "do not shrink")
	flag.Parse()

	if *info {
		out := map[string]interface{}{}
		for id, p := range props.All {
			out[id] = map[string]interface{}{"Quick": p.Quick, "Thorough": p.Thorough, "Rule": p.Rule, "Pins": len(p.Pins)}
		}
		json.NewEncoder(os.Stdout).Encode(out)
		return
	}
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(200)
	debug.SetMaxStack(256 << 20)

	env := pbt.Env{Known: readKnown(*knownFile), Debug: *dbg}

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var f FailRec
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		p := props.All[f.Property]
		go watch(*limit*3, 3<<30)
		atomic.StoreInt64(&caseIdx, 0)
		var r pbt.Result
		if f.Pin != "" {
			r = pbt.Replay(env, p.PinFn(f.Pin), nil, true)
		} else if f.CaseSeed != 0 {
			r = pbt.RunSeed(env, p.Run(*only), f.CaseSeed)
		} else {
			r = pbt.Replay(env, p.Run(*only), f.Choices, true)
		}
		fmt.Print(r.Log)
		if r.Fail != nil {
			fmt.Printf("FAILS: %s: %s\n", r.Fail.Kind, r.Fail.Msg)
			os.Exit(1)
		}
		if r.Discarded != "" {
			fmt.Println("discarded:", r.Discarded)
		}
		fmt.Println("passes")
		return
	}

	p := props.All[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(2)
	}
	go watch(*limit, 3<<30)

	var pf *os.File
	if *progress != "" {
		pf, _ = os.Create(*progress)
	}
	mark := func(s uint64) {
		if pf != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], s)
			pf.WriteAt(b[:], 0)
		}
	}

	st := Stats{Labels: map[string]int{}, Found: map[string]string{}}
	fn := p.Run(*only)
	seen := map[uint64]bool{}
	finish := func() {
		if *hashes != "" {
			f, _ := os.Create(*hashes)
			w := bufio.NewWriter(f)
			for h := range seen {
				binary.Write(w, binary.LittleEndian, h)
			}
			w.Flush()
			f.Close()
		}
		json.NewEncoder(os.Stdout).Encode(st)
	}

	if *pins {
		for _, pin := range p.Pins {
			mark(^uint64(0))
			atomic.AddInt64(&caseIdx, 1)
			r := pbt.Replay(env, pin.Fn, nil, true)
			st.Pins = append(st.Pins, pin.Name)
			for k, v := range r.Found {
				st.Found[k] = v
			}
			if r.Fail != nil {
				st.Fail = &FailRec{Property: *prop, Debug: *dbg, Pin: pin.Name, Kind: r.Fail.Kind, Message: r.Fail.Msg, Log: r.Log}
				finish()
				os.Exit(1)
			}
		}
	}

	for i := 0; i < *cases; i++ {
		cs := pbt.Mix(*seed, strHash(*prop), uint64(*worker), uint64(i)) | 1
		if *one != 0 {
			cs = *one
		}
		atomic.AddInt64(&caseIdx, 1)
		mark(cs)
		r := pbt.RunSeed(env, fn, cs)
		if r.Fail != nil {
			orig := len(r.Choices)
			best, n := r, 0
			if !*noshrink {
				t0 := time.Now()
				stop := func() bool {
					atomic.AddInt64(&caseIdx, 1)
					return time.Since(t0) > 40*time.Second
				}
				best, n = pbt.Shrink(env, fn, r, 4000, stop)
			}
			v := pbt.Replay(env, fn, best.Choices, true)
			st.Fail = &FailRec{Property: *prop, Debug: *dbg, Choices: best.Choices, Kind: best.Fail.Kind,
				Message: best.Fail.Msg, Log: v.Log, ShrinkRuns: n, Original: orig}
			st.Evaluations++
			finish()
			os.Exit(1)
		}
		st.Evaluations++
		collect()
		if r.Discarded != "" {
			st.Discarded++
			st.Labels["discarded:"+r.Discarded]++
		}
		for k, v := range r.Labels {
			if v > 0 {
				st.Labels[k]++
			}
		}
		for k, v := range r.Found {
			st.Found[k] = v
		}
		if r.NonTriv {
			st.NonTrivial++
			if len(seen) < 300000 {
				seen[pbt.Hash(r.Choices)] = true
			}
			if len(st.Samples) < 2 {
				v := pbt.Replay(env, fn, r.Choices, true)
				s := v.Log
				if len(s) > 1500 {
					s = s[:1500] + "..."
				}
				st.Samples = append(st.Samples, s)
			}
		}
		if *one != 0 {
			break
		}
	}
	finish()
}

var heapSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
var lastAllocs uint64

// collect empties the library's pools: each space leaves about a thousand
// pooled arbiters, which survive one collection, so the pacer alone lets the heap grow.
func collect() {
	metrics.Read(heapSample)
	a := heapSample[0].Value.Uint64()
	if a-lastAllocs > 256<<20 {
		lastAllocs = a
		runtime.GC()
		runtime.GC()
	}
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}
