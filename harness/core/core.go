// Package core is the runtime-monitoring framework: it runs the real code under
// seeded workloads in child processes, watches for crashes, process exits, hangs,
// memory runaways, data races and oracle violations, and reports what was observed.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one property: a fixed list of cases determined by (seed, tier) and a monitor.
type Prop struct {
	ID       string
	Rule     string // how cases are made and which count as non-trivial
	Quick    int    // number of cases in the quick tier
	Thorough int
	Race     bool // run the workers under the race detector
	TrimPath bool // build the workers so that sources are at relative paths
	Procs    int  // number of worker processes (0: 8)
	Run      func(c *C)
}

var registry = map[string]*Prop{}

func Register(p *Prop) { registry[p.ID] = p }

func Get(id string) *Prop { return registry[id] }

func IDs() []string {
	var out []string
	for k := range registry {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// C is the context of one case.
type C struct {
	R    *rand.Rand
	Idx  int
	N    int // total number of cases
	Tier string
	Prop string
	w    *worker
	mu   sync.Mutex
	fail bool
}

// Violation is one refutation of a property.
type Violation struct {
	Prop  string `json:"property"`
	Key   string `json:"key"`
	Msg   string `json:"msg"`
	Idx   int    `json:"idx"`
	Seed  int64  `json:"seed"`
	Tier  string `json:"tier"`
	Stack string `json:"stack,omitempty"`
}

type worker struct {
	mu       sync.Mutex
	prop     *Prop
	seed     int64
	tier     string
	ev       *os.File
	evals    int64
	hashes   map[uint64]struct{}
	counts   map[string]int64
	samples  []string
	sampleAt map[string]int
	viol     int
	cur      atomic.Int64
	curSeq   atomic.Int64
	detail   atomic.Value
}

// Result is what a worker shard measured.
type Result struct {
	Evals   int64            `json:"evals"`
	Hashes  []uint64         `json:"hashes"`
	Counts  map[string]int64 `json:"counts"`
	Samples []string         `json:"samples"`
	Done    bool             `json:"done"`
}

// Eval records one evaluation (one input tried against the oracle).
func (c *C) Eval(desc string, nontrivial bool) {
	c.w.detail.Store(desc)
	h := fnv.New64a()
	h.Write([]byte(desc))
	c.w.mu.Lock()
	c.w.evals++
	if nontrivial {
		c.w.hashes[h.Sum64()] = struct{}{}
	}
	c.w.mu.Unlock()
	if nontrivial {
		c.Sample("case", desc)
	}
}

// Note counts an observed event.
func (c *C) Note(kind string) { c.NoteN(kind, 1) }

func (c *C) NoteN(kind string, n int) {
	c.w.mu.Lock()
	c.w.counts[kind] += int64(n)
	c.w.mu.Unlock()
}

// Detail remembers what is being run, so that a crash or a hang can name it.
func (c *C) Detail(format string, a ...any) { c.w.detail.Store(fmt.Sprintf(format, a...)) }

// Sample keeps a few written-out cases per kind.
func (c *C) Sample(kind, s string) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	if c.w.sampleAt[kind] >= 2 {
		return
	}
	c.w.sampleAt[kind]++
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.w.samples = append(c.w.samples, kind+": "+s)
}

// Fail records a violation. key identifies the failure for the known-findings file.
func (c *C) Fail(key, format string, a ...any) {
	c.w.report(Violation{Prop: c.Prop, Key: key, Msg: fmt.Sprintf(format, a...), Idx: c.Idx, Seed: c.w.seed, Tier: c.w.tier})
	c.mu.Lock()
	c.fail = true
	c.mu.Unlock()
}

// Failed says whether this case already reported.
func (c *C) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.fail }

// Guard runs f; a panic in it is reported as a violation with the given key. It returns false on panic.
func (c *C) Guard(key, what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			c.w.report(Violation{Prop: c.Prop, Key: key, Msg: fmt.Sprintf("panic: %v while running %s", r, what),
				Idx: c.Idx, Seed: c.w.seed, Tier: c.w.tier, Stack: trim(st, 4000)})
			c.mu.Lock()
			c.fail = true
			c.mu.Unlock()
			ok = false
		}
	}()
	f()
	return true
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (w *worker) report(v Violation) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.viol++
	if w.viol > 200 {
		return
	}
	v.Msg = trim(v.Msg, 60000)
	b, _ := json.Marshal(v)
	w.ev.Write(append(b, '\n'))
	if k := os.Getenv("VDRV_FIRST"); k != "" && k != v.Key { // one violation is enough (tools/mutants.py)
		os.Exit(97)
	}
}

func caseSeed(seed int64, prop string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, idx)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// RunWorker executes the cases from, from+step, ... < n of a property in this process.
func RunWorker(id string, seed int64, tier string, from, step, n int, dir string) int {
	p := Get(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	ev, err := os.OpenFile(dir+"/events", os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	jf, err := os.OpenFile(dir+"/journal", os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	w := &worker{prop: p, seed: seed, tier: tier, ev: ev, hashes: map[uint64]struct{}{}, counts: map[string]int64{}, sampleAt: map[string]int{}}
	w.detail.Store("")
	// the code under test prints; keep that out of our own streams
	stop := make(chan struct{})
	go w.watchdog(dir, stop)
	slow, _ := time.ParseDuration(os.Getenv("VDRV_SLOW")) // to look for cases that cost too much
	for i := from; i < n; i += step {
		w.cur.Store(int64(i))
		w.curSeq.Add(1)
		w.detail.Store("")
		jf.WriteAt([]byte(fmt.Sprintf("%-16d", i)), 0)
		c0 := cpuTime()
		w.runCase(i, n)
		if c1 := cpuTime() - c0; slow > 0 && c1 > slow {
			fmt.Fprintf(os.Stderr, "slow: %s seed %d case %d: %v %v\n", id, seed, i, c1, w.detail.Load())
		}
	}
	close(stop)
	res := Result{Evals: w.evals, Counts: w.counts, Samples: w.samples, Done: true}
	for h := range w.hashes {
		res.Hashes = append(res.Hashes, h)
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(dir+"/result", b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ev.Close()
	return 0
}

func (w *worker) runCase(i, n int) {
	c := &C{R: rand.New(rand.NewSource(caseSeed(w.seed, w.prop.ID, i))), Idx: i, N: n, Tier: w.tier, Prop: w.prop.ID, w: w}
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			w.report(Violation{Prop: w.prop.ID, Key: "panic", Msg: fmt.Sprintf("panic: %v while running %v", r, w.detail.Load()),
				Idx: i, Seed: w.seed, Tier: w.tier, Stack: trim(st, 4000)})
		}
	}()
	w.prop.Run(c)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog reports a case that burns CPU far beyond any legitimate case, one that is
// blocked with no CPU use over many of the watchdog's own ticks, and memory runaways.
func (w *worker) watchdog(dir string, stop chan struct{}) {
	const tick = 200 * time.Millisecond
	cpuLimit := 100 * time.Second
	if s, err := strconv.Atoi(os.Getenv("VDRV_CPU")); err == nil {
		cpuLimit = time.Duration(s) * time.Second
	}
	const idleTicks = 450
	const heapLimit = 3 << 30
	lastSeq := int64(-1)
	var cpu0, lastCPU time.Duration
	idle := 0
	t := time.NewTicker(tick)
	defer t.Stop()
	for {
		select {
		case <-stop:
			return
		case <-t.C:
		}
		seq := w.curSeq.Load()
		now := cpuTime()
		if seq != lastSeq {
			lastSeq, cpu0, lastCPU, idle = seq, now, now, 0
			continue
		}
		if now-lastCPU < 20*time.Millisecond {
			idle++
		} else {
			idle = 0
		}
		lastCPU = now
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		key := ""
		switch {
		case now-cpu0 > cpuLimit:
			key = "hang"
		case idle > idleTicks:
			key = "deadlock"
		case ms.HeapAlloc > heapLimit:
			key = "memory-runaway"
		}
		if key != "" {
			buf := make([]byte, 1<<16)
			k := runtime.Stack(buf, true)
			w.report(Violation{Prop: w.prop.ID, Key: key, Msg: fmt.Sprintf("%s in case %d after %v CPU, heap %d MB: %v", key, w.cur.Load(), now-cpu0, ms.HeapAlloc>>20, w.detail.Load()),
				Idx: int(w.cur.Load()), Seed: w.seed, Tier: w.tier, Stack: trim(string(buf[:k]), 6000)})
			os.Exit(97)
		}
	}
}

// Q quotes for messages.
func Q(v any) string {
	s := fmt.Sprintf("%q", v)
	return trim(s, 1500)
}

// Diff shortens two values for a message.
func Diff(got, want any) string {
	return fmt.Sprintf("got %s want %s", trim(fmt.Sprintf("%+q", got), 1500), trim(fmt.Sprintf("%+q", want), 1500))
}

var _ = strings.Join
