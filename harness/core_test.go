// Package harness drives the real oarkflow/permission code under generated workloads and
// judges every observation with the monitors in the c*_test.go files.
package harness

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

var (
	fProp   = flag.String("vprop", "", "property id")
	fTier   = flag.String("vtier", "quick", "quick or thorough")
	fSeed   = flag.Int64("vseed", 1, "seed")
	fShard  = flag.Int("vshard", 0, "shard number")
	fShards = flag.Int("vshards", 1, "number of shards")
	fOut    = flag.String("vout", "", "result file")
	fCase   = flag.Int("vcase", -1, "replay this case only, with its log")
	fLane   = flag.String("vlane", "", "plain: the run without the race detector of a property that also has one with it")
	fScale  = flag.Float64("vscale", 1, "scales the number of cases (development only)")
	fCap    = flag.Int("vcap", 600, "stop starting new cases after this many seconds")
)

// Prop is one property: how to run one case of it and how many cases make a run.
type Prop struct {
	Rule     string // how cases are made and when one counts as non-trivial
	Quick    int    // cases in the quick tier, over all shards
	Thorough int
	Run      func(c *C)
	Plain    int      // with -vlane plain: this many times as many cases (default 4)
	CPULimit float64  // CPU seconds one case may burn before it counts as not terminating
	Need     []string // counters that must be non-zero or the run observed nothing
}

var props = map[string]*Prop{}

func register(id string, p *Prop) {
	if p.Plain == 0 {
		p.Plain = 4
	}
	if p.CPULimit == 0 {
		p.CPULimit = 150
	}
	props[id] = p
}

// C is one case: a private PRNG, a log and the counters of what was observed.
type C struct {
	*rand.Rand
	T       *testing.T
	Index   int
	Total   int
	Size    int // grows with the case number
	Thoro   bool
	verbose bool
	vocab   map[string][]string // identifiers to be used by all policies of the case, if not nil
	log     []string
	logged  int
	st      *stats
	mu      sync.Mutex
}

type stats struct {
	mu     sync.Mutex
	events map[string]int64
	fps    map[uint64]struct{}
	evals  atomic.Int64
}

type violation struct{ msg string }

// Failf reports a violation of the property under check and ends the case.
func (c *C) Failf(format string, args ...any) {
	panic(violation{fmt.Sprintf(format, args...)})
}

func (c *C) Check(ok bool, format string, args ...any) {
	if !ok {
		c.Failf(format, args...)
	}
}

// Logf notes a step of the case; kept only when the case is replayed.
func (c *C) Logf(format string, args ...any) {
	if !c.verbose {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.logged++
	if len(c.log) < 4000 {
		c.log = append(c.log, fmt.Sprintf(format, args...))
	}
}

// Count adds to a named counter of observed events.
func (c *C) Count(name string, n int) {
	c.st.mu.Lock()
	c.st.events[name] += int64(n)
	c.st.mu.Unlock()
}

// Seen notes a distinct non-trivial observation by fingerprint.
func (c *C) Seen(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	c.st.mu.Lock()
	c.st.fps[h.Sum64()] = struct{}{}
	c.st.mu.Unlock()
}

// Judged counts observations an oracle decided on.
func (c *C) Judged(n int) { c.st.evals.Add(int64(n)) }

func (c *C) Chance(pct int) bool { return c.IntN(100) < pct }

func pick[T any](c *C, xs []T) T { return xs[c.IntN(len(xs))] }

type violationOut struct {
	Case  int      `json:"case"`
	Seed  int64    `json:"seed"`
	Msg   string   `json:"msg"`
	Log   []string `json:"log,omitempty"`
	Stack string   `json:"stack,omitempty"`
}

type resultOut struct {
	Prop       string           `json:"prop"`
	Rule       string           `json:"rule"`
	Cases      int              `json:"cases"`
	Planned    int              `json:"planned"`
	Evals      int64            `json:"evals"`
	Events     map[string]int64 `json:"events"`
	Distinct   int              `json:"distinct"`
	Samples    []any            `json:"samples"`
	Violations []violationOut   `json:"violations"`
	Harness    string           `json:"harness_error,omitempty"`
	Missing    []string         `json:"observed_none_of,omitempty"` // another process may have observed them
	WallS      float64          `json:"wall_s"`
	Slowest    float64          `json:"slowest_case_cpu_s"`
}

var (
	result    resultOut
	resultMu  sync.Mutex
	current   atomic.Pointer[running]
	libFrame  = regexp.MustCompile(`github\.com/oarkflow/(permission|maps|xsync)`)
	goidState = regexp.MustCompile(`(?m)^goroutine \d+(?: gp=\S+)?(?: m=\S+)?(?: mp=\S+)? \[([^\],:]+)`)
)

type running struct {
	c        *C
	cpuStart float64
	start    time.Time
	limit    float64
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func writeResult(st *stats) {
	if *fOut == "" {
		return
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	result.Events = st.events
	result.Distinct = len(st.fps)
	result.Evals = st.evals.Load()
	b, err := json.MarshalIndent(&result, "", " ")
	if err == nil {
		err = os.WriteFile(*fOut, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot write result:", err)
		os.Exit(3)
	}
	fp := make([]byte, 0, 8*len(st.fps))
	for f := range st.fps {
		fp = binary.LittleEndian.AppendUint64(fp, f)
	}
	_ = os.WriteFile(*fOut+".fp", fp, 0o644)
}

func finish(st *stats, code int) {
	resultMu.Lock() // never released: one writer, then exit
	writeResult(st)
	os.Exit(code)
}

// watchdog turns non-termination, runaway memory and deadlock of a case into a violation.
// Non-termination is judged by CPU time burnt, deadlock by repeated dumps in which nothing
// can run; wall-clock time alone never decides anything.
func watchdog(st *stats) {
	stuck := 0
	for {
		time.Sleep(2 * time.Second)
		r := current.Load()
		if r == nil {
			stuck = 0
			continue
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		cpu := cpuSeconds() - r.cpuStart
		why := ""
		if cpu > r.limit {
			why = fmt.Sprintf("did not terminate within %.0f s of CPU time", r.limit)
		} else if ms.HeapAlloc > 6<<30 {
			why = fmt.Sprintf("memory use grew to %d MB", ms.HeapAlloc>>20)
		}
		buf := make([]byte, 4<<20)
		if why == "" && time.Since(r.start) > 20*time.Second {
			buf = buf[:runtime.Stack(buf, true)]
			if blocked(string(buf)) && current.Load() == r {
				stuck++
			} else {
				stuck = 0
			}
			if stuck >= 6 {
				why = "deadlock: every goroutine inside the library is blocked"
			}
		} else {
			stuck = 0
		}
		if why == "" {
			continue
		}
		buf = buf[:cap(buf)]
		buf = buf[:runtime.Stack(buf, true)]
		if current.Load() != r {
			continue
		}
		if !libFrame.Match(buf) {
			result.Harness = "watchdog: " + why + " (no library frame)\n" + string(buf)
			finish(st, 3)
		}
		result.Violations = append(result.Violations, violationOut{Case: r.c.Index, Seed: *fSeed, Msg: why, Log: r.c.log, Stack: string(buf)})
		finish(st, 1)
	}
}

// blocked reports whether a dump shows library code waiting and nothing that could run.
func blocked(dump string) bool {
	lib := false
	for _, g := range strings.Split(dump, "\n\n") {
		m := goidState.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		if strings.Contains(g, "harness.watchdog") {
			continue
		}
		switch m[1] {
		case "running", "runnable", "syscall", "sleep":
			return false
		}
		if libFrame.MatchString(g) {
			lib = true
		}
	}
	return lib
}

func caseRand(index int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s%s/%d", *fProp, *fLane, index)
	return rand.New(rand.NewPCG(uint64(*fSeed), h.Sum64()))
}

// runCase runs one case and returns its violation, if any.
func runCase(t *testing.T, p *Prop, st *stats, index, total int, verbose bool) (c *C, v *violationOut) {
	c = &C{Rand: caseRand(index), T: t, Index: index, Total: total, Thoro: *fTier == "thorough", verbose: verbose, st: st}
	c.Size = 1 + index*10/total // 1..10
	current.Store(&running{c: c, cpuStart: cpuSeconds(), start: time.Now(), limit: p.CPULimit})
	defer current.Store(nil)
	defer func() {
		if r := recover(); r != nil {
			v = c.asViolation(r, string(debug.Stack()))
		}
	}()
	p.Run(c)
	return c, nil
}

// asViolation turns a recovered panic into a violation, or reports a harness error.
func (c *C) asViolation(r any, stack string) *violationOut {
	if v, ok := r.(violation); ok {
		return &violationOut{Case: c.Index, Seed: *fSeed, Msg: v.msg}
	}
	if v, ok := r.(*violationOut); ok {
		return v
	}
	if !panicInLibrary(stack) {
		result.Harness = fmt.Sprintf("harness panic in case %d: %v\n%s", c.Index, r, stack)
		finish(c.st, 3)
	}
	return &violationOut{Case: c.Index, Seed: *fSeed, Msg: fmt.Sprintf("panic in the library: %v", r), Stack: stack}
}

// panicInLibrary looks at the frame that panicked, skipping the runtime and the standard
// library: it is the library's panic if a library frame comes before a harness frame.
func panicInLibrary(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		return false
	}
	for _, line := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(line, "\t") {
			continue
		}
		if libFrame.MatchString(line) {
			return true
		}
		if strings.HasPrefix(line, "verif/harness.") {
			return false
		}
	}
	return false
}

// Protect runs f, turning its panics into violations of this case; for goroutines and bubbles.
func (c *C) Protect(f func()) (v *violationOut) {
	defer func() {
		if r := recover(); r != nil {
			v = c.asViolation(r, string(debug.Stack()))
		}
	}()
	f()
	return nil
}

// Go runs f in n goroutines and raises the first violation of any of them.
func (c *C) Go(n int, f func(i int)) {
	var wg sync.WaitGroup
	vs := make([]*violationOut, n)
	start := make(chan struct{})
	for i := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			vs[i] = c.Protect(func() { f(i) })
		}()
	}
	close(start)
	wg.Wait()
	for _, v := range vs {
		if v != nil {
			panic(v)
		}
	}
}

func TestVerif(t *testing.T) {
	p := props[*fProp]
	if p == nil {
		t.Skip("no property given")
	}
	debug.SetMaxStack(256 << 20)
	start := time.Now()
	st := &stats{events: map[string]int64{}, fps: map[uint64]struct{}{}}
	result = resultOut{Prop: *fProp, Rule: p.Rule}
	go watchdog(st)
	total := p.Quick
	if *fTier == "thorough" {
		total = p.Thorough
	}
	if *fLane == "plain" {
		total *= p.Plain
	}
	total = max(*fShards, int(float64(total)**fScale))
	if *fCase >= 0 {
		c, v := runCase(t, p, st, *fCase, total, true)
		for _, l := range c.log {
			fmt.Println(l)
		}
		if v != nil {
			fmt.Println("VIOLATED:", v.Msg, v.Stack)
			os.Exit(1)
		}
		fmt.Println("held")
		return
	}
	samples := map[int]bool{}
	for i := *fShard; i < total; i += *fShards {
		result.Planned++
		if time.Since(start) > time.Duration(*fCap)*time.Second {
			continue
		}
		before := len(st.fps)
		cpu := cpuSeconds()
		_, v := runCase(t, p, st, i, total, false)
		result.Slowest = max(result.Slowest, cpuSeconds()-cpu)
		if v != nil {
			// The same case again, with its log
			if rc, rv := runCase(t, p, &stats{events: map[string]int64{}, fps: map[uint64]struct{}{}}, i, total, true); rv != nil {
				v = rv
				v.Log = rc.log
			} else {
				v.Log = append([]string{"(the second run of this case did not fail: it depends on map order or scheduling)"}, rc.log...)
			}
			result.Violations = append(result.Violations, *v)
			finish(st, 1)
		}
		result.Cases++
		if len(st.fps) > before && len(samples) < 2 && i > total/8 {
			samples[i] = true
		}
	}
	for i := range samples {
		c, _ := runCase(t, p, &stats{events: map[string]int64{}, fps: map[uint64]struct{}{}}, i, total, true)
		l := c.log
		if len(l) > 40 {
			l = append(l[:40:40], fmt.Sprintf("... %d more lines", c.logged-40))
		}
		result.Samples = append(result.Samples, map[string]any{"case": i, "log": l})
	}
	result.WallS = time.Since(start).Seconds()
	var missing []string
	for _, n := range p.Need {
		if st.events[n] == 0 {
			missing = append(missing, n)
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 {
		result.Missing = missing
	}
	finish(st, 0)
}
