package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	enough = make(chan struct{})
	once   sync.Once
)

type shardOut struct {
	res    []Result
	viol   []Violation
	broken []string
}

// RunParent runs all cases of a property in worker processes and reports.
// self is the worker binary (a -race build for race properties).
func RunParent(id string, seed int64, tier, self, verif, known string) int {
	start := time.Now()
	p := Get(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	procs := p.Procs
	if procs == 0 {
		procs = 8
	}
	if procs > n {
		procs = n
	}
	old, _ := filepath.Glob(filepath.Join(verif, "evidence", "replay", id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	tmp, err := os.MkdirTemp("", "vdrv-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	outs := make([]shardOut, procs)
	var wg sync.WaitGroup
	for s := 0; s < procs; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			outs[s] = runShard(p, seed, tier, self, s, procs, n, filepath.Join(tmp, fmt.Sprintf("s%d", s)))
		}(s)
	}
	wg.Wait()

	var evals int64
	hashes := map[uint64]struct{}{}
	counts := map[string]int64{}
	var samples []any
	perKind := map[string]int{}
	var viols []Violation
	var broken []string
	for _, o := range outs {
		viols = append(viols, o.viol...)
		broken = append(broken, o.broken...)
		for _, r := range o.res {
			evals += r.Evals
			for _, h := range r.Hashes {
				hashes[h] = struct{}{}
			}
			for k, v := range r.Counts {
				counts[k] += v
			}
			for _, s := range r.Samples {
				kind := strings.SplitN(s, ":", 2)[0]
				if perKind[kind] < 2 && len(samples) < 24 {
					perKind[kind]++
					samples = append(samples, s)
				}
			}
		}
	}
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Idx < viols[j].Idx })
	knownKeys := loadKnown(known, id)
	hit := map[string]int{}
	var fresh []Violation
	for _, v := range viols {
		if _, ok := knownKeys[v.Key]; ok {
			hit[v.Key]++
			continue
		}
		fresh = append(fresh, v)
	}
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	coverage := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(hashes),
		"rule":                p.Rule,
		"samples":             samples,
		"events_observed":     counts,
		"cases":               n,
		"worker_processes":    procs,
		"race_detector":       p.Race,
		"known_findings_hit":  hit,
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": coverage, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d evaluations, %d distinct non-trivial, %d events kinds, %d violations, %.1fs\n", id, evals, len(hashes), len(counts), len(fresh), time.Since(start).Seconds())
	var kk []string
	for k := range counts {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("  observed %s: %d\n", k, counts[k])
	}
	var hk []string
	for k := range hit {
		hk = append(hk, k)
	}
	sort.Strings(hk)
	for _, k := range hk {
		fmt.Printf("KNOWN-FINDING: property=%s %s (key=%s, seen %d times)\n", id, knownKeys[k], k, hit[k])
	}
	if len(fresh) > 0 {
		os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
		seen := map[string]int{}
		shown := 0
		for _, v := range fresh {
			if seen[v.Key]++; seen[v.Key] > 5 || shown >= 8 {
				continue
			}
			path := filepath.Join(evDir, "replay", fmt.Sprintf("%s-%d-%d.json", id, seed, v.Idx))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  key=%s idx=%d: %s\n", v.Key, v.Idx, trim(v.Msg, 1500))
			if v.Stack != "" {
				fmt.Printf("  %s\n", strings.ReplaceAll(trim(v.Stack, 1800), "\n", "\n  "))
			}
			shown++
		}
		return 1
	}
	if len(broken) > 0 {
		fmt.Println("INCONCLUSIVE:", strings.Join(broken, "; "))
		return 3
	}
	if evals == 0 || len(hashes) < 2 {
		fmt.Println("INCONCLUSIVE: the workload observed nothing")
		return 3
	}
	return 0
}

func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		line := sc.Text()
		// finding: property=P key=K | text
		if !strings.HasPrefix(line, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(line, "finding: property="+id+" key=")
		parts := strings.SplitN(rest, " | ", 2)
		if len(parts) == 2 {
			out[parts[0]] = parts[1]
		}
	}
	return out
}

func runShard(p *Prop, seed int64, tier, self string, s, procs, n int, dir string) (out shardOut) {
	from := s
	for attempt := 0; from < n; attempt++ {
		d := fmt.Sprintf("%s-%d", dir, attempt)
		os.MkdirAll(filepath.Join(d, "scratch"), 0o777)
		cmd := exec.Command(self, "worker", "-prop", p.ID, "-seed", strconv.FormatInt(seed, 10), "-tier", tier,
			"-from", strconv.Itoa(from), "-step", strconv.Itoa(procs), "-n", strconv.Itoa(n), "-dir", d)
		lf, _ := os.Create(filepath.Join(d, "log"))
		cmd.Stdout, cmd.Stderr = lf, lf
		cmd.Dir = filepath.Join(d, "scratch")
		env := os.Environ()
		if p.Race {
			env = append(env, "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(d, "race"))
		} else if os.Getenv("GOMAXPROCS") == "" {
			env = append(env, "GOMAXPROCS=4")
		}
		env = append(env, "GO_TOKENIZER="+filepath.Join(d, "scratch", "cachedir"), "VDRV_SCRATCH="+filepath.Join(d, "scratch"), "GOTRACEBACK=all")
		cmd.Env = env
		// a shard that neither finishes nor trips its own watchdog is inconclusive
		err := cmd.Start()
		if err != nil {
			out.broken = append(out.broken, err.Error())
			return
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		limit := 14 * time.Minute
		if tier == "thorough" {
			limit = 6 * time.Hour
		}
		select {
		case err = <-done:
		case <-enough: // only with VDRV_FIRST
			cmd.Process.Kill()
			<-done
			lf.Close()
			return
		case <-time.After(limit):
			cmd.Process.Kill()
			err = <-done
			out.broken = append(out.broken, fmt.Sprintf("shard %d: over %v", s, limit))
			lf.Close()
			out.viol = append(out.viol, readEvents(d)...)
			return
		}
		lf.Close()
		out.viol = append(out.viol, readEvents(d)...)
		if p.Race {
			out.viol = append(out.viol, readRaces(p, d, seed, tier, from)...)
		}
		var r Result
		if b, e := os.ReadFile(filepath.Join(d, "result")); e == nil && json.Unmarshal(b, &r) == nil && r.Done {
			out.res = append(out.res, r)
			os.RemoveAll(d)
			return
		}
		// the worker died: identify the case from the journal
		idx := from
		if b, e := os.ReadFile(filepath.Join(d, "journal")); e == nil {
			if v, e2 := strconv.Atoi(strings.TrimSpace(string(b))); e2 == nil {
				idx = v
			}
		}
		code := -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		if code == -1 { // killed by a signal from outside: no verdict
			tail := tailOf(filepath.Join(d, "log"), 3000)
			if !strings.Contains(tail, "fatal error") && !strings.Contains(tail, "SIG") {
				out.broken = append(out.broken, fmt.Sprintf("shard %d killed at case %d", s, idx))
				return
			}
		}
		if code != 97 {
			out.viol = append(out.viol, Violation{Prop: p.ID, Key: "process-exit",
				Msg: fmt.Sprintf("the process ended (exit code %d) in case %d: %s", code, idx, tailOf(filepath.Join(d, "log"), 2500)), Idx: idx, Seed: seed, Tier: tier})
		}
		os.RemoveAll(d)
		if os.Getenv("VDRV_FIRST") != "" {
			once.Do(func() { close(enough) })
			return
		}
		if attempt >= 3 {
			return
		}
		from = idx + procs
	}
	return
}

func tailOf(path string, n int) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	// a Go crash names itself at the start of the trace
	s := string(b)
	for _, m := range []string{"fatal error:", "panic:", "unexpected fault"} {
		if i := strings.LastIndex(s, m); i >= 0 {
			return trim(s[i:], n)
		}
	}
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

func readEvents(d string) (out []Violation) {
	f, err := os.Open(filepath.Join(d, "events"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<22)
	for sc.Scan() {
		var v Violation
		if json.Unmarshal(sc.Bytes(), &v) == nil {
			out = append(out, v)
		}
	}
	return
}

// readRaces turns race detector reports into violations, one per distinct pair of stacks.
func readRaces(p *Prop, d string, seed int64, tier string, from int) (out []Violation) {
	files, _ := filepath.Glob(filepath.Join(d, "race.*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			var frames []string
			for _, l := range strings.Split(blk, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "github.com/sugarme/tokenizer") {
					frames = append(frames, l)
				}
			}
			if len(frames) == 0 {
				// not in the code under test
				out = append(out, Violation{Prop: p.ID, Key: "race-in-harness", Msg: trim(blk, 3000), Idx: from, Seed: seed, Tier: tier})
				continue
			}
			key := strings.Join(frames, "|")
			if seen[key] {
				continue
			}
			seen[key] = true
			out = append(out, Violation{Prop: p.ID, Key: "data-race", Msg: trim(blk, 4000), Idx: from, Seed: seed, Tier: tier})
		}
	}
	return
}
