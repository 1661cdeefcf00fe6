package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func mix(a, b uint64) uint64 {
	r := rng{a*0x9e3779b97f4a7c15 ^ (b+0x7f4a7c15)*0xbf58476d1ce4e5b9}
	r.u64()
	return r.u64()
}

func strSeed(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

type known struct{ prop, class, key, text string }

// loadKnown reads the committed list of findings that are recorded, not repaired.
func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	sc := bufio.NewScanner(bytes.NewReader(b))
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := known{text: l}
		for _, f := range strings.Fields(l[7:]) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.prop = v
			}
			if v, ok := strings.CutPrefix(f, "class="); ok {
				k.class = v
			}
			if v, ok := strings.CutPrefix(f, "key="); ok {
				k.key = strings.ReplaceAll(v, "_", " ")
			}
		}
		out = append(out, k)
	}
	return out
}

type replayFile struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	VerifSeed uint64     `json:"verif_seed"`
	RunIndex  int        `json:"run_index"`
	TraceHash string     `json:"trace_hash"`
	Original  string     `json:"original_size"`
	Minimised string     `json:"minimised_size"`
	Plan      *Plan      `json:"plan"`
	Trace     []string   `json:"trace"`
}

type found struct {
	index int
	plan  *Plan
	v     *Violation
}

func protect(f func()) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if h, ok := e.(*harnessError); ok {
				err = h
				return
			}
			buf := make([]byte, 8192)
			n := runtime.Stack(buf, false)
			err = fmt.Errorf("harness panic: %v\n%s", e, buf[:n])
		}
	}()
	f()
	return nil
}

func runCheck(p *Property, bin, binConc, verifDir, tier string, seed uint64) int {
	t0 := time.Now()
	runs := p.Quick
	limit := 150 * time.Second
	if tier == "thorough" {
		runs = p.Thorough
		limit = 740 * time.Second
	}
	if s := os.Getenv("SIM_RUNS"); s != "" {
		runs, _ = strconv.Atoi(s)
	}
	nw := 8
	if s := os.Getenv("SIM_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	recheck := 16
	if tier == "thorough" {
		recheck = 128
	}
	if s := os.Getenv("SIM_RECHECK"); s != "" {
		recheck, _ = strconv.Atoi(s)
	}
	fmt.Printf("property %s, tier %s, VERIF_SEED %d, %d runs on %d workers\n", p.ID, tier, seed, runs, nw)
	knowns := loadKnown(filepath.Join(verifDir, "known-findings.txt"))
	base := mix(seed, strSeed(p.ID))

	var next, stopAt, done, shortfall atomic.Int64
	stopAt.Store(int64(runs))
	var mu sync.Mutex
	var finds []found
	var firstErr error
	total := newStats()
	var samples []string
	knownHit := map[string]string{}
	plans := make([]*Plan, 0, recheck)
	hashes := make([]string, 0, recheck)
	firsts := map[int]string{}
	var traces [][]string
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			k := newWorker(bin, binConc)
			for {
				n := next.Add(1) - 1
				if n >= stopAt.Load() {
					break
				}
				if time.Since(t0) > limit {
					shortfall.Add(1)
					break
				}
				var plan *Plan
				var x *Exec
				var v *Violation
				err := protect(func() { plan, x, v = generate(k, p, mix(base, uint64(n))) })
				if err != nil {
					mu.Lock()
					if firstErr == nil {
						firstErr = fmt.Errorf("run %d (seed %d): %v", n, mix(base, uint64(n)), err)
					}
					mu.Unlock()
					stopAt.Store(0)
					break
				}
				k.stats.Runs++
				done.Add(1)
				if x.sig {
					k.stats.Nontrivial++
					k.stats.Shapes[x.shape()] = true
				}
				if v != nil {
					mu.Lock()
					listed := false
					for _, kn := range knowns {
						if kn.prop == p.ID && kn.class == v.Class && strings.Contains(v.Msg, kn.key) {
							knownHit[kn.text] = v.Msg
							listed = true
						}
					}
					if !listed {
						finds = append(finds, found{int(n), plan, v})
						for {
							s := stopAt.Load()
							if n+1 >= s || stopAt.CompareAndSwap(s, n+1) {
								break
							}
						}
					}
					mu.Unlock()
				} else if int(n) < recheck {
					mu.Lock()
					plans = append(plans, plan)
					hashes = append(hashes, x.w.traceHash())
					if os.Getenv("SIM_DUMP") != "" {
						traces = append(traces, x.w.trace)
					}
					mu.Unlock()
				}
				if n < 3 {
					mu.Lock()
					var sb strings.Builder
					fmt.Fprintf(&sb, "run %d seed %d scenario %s:", n, plan.RunSeed, plan.Scenario)
					for _, s := range plan.Steps {
						sb.WriteString(" / " + stepLabel(s))
					}
					firsts[int(n)] = sb.String()
					mu.Unlock()
				}
			}
			mu.Lock()
			total.merge(k.stats)
			mu.Unlock()
		}()
	}
	wg.Wait()
	for _, n := range []int{0, 1, 2} {
		if s, ok := firsts[n]; ok {
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			samples = append(samples, s)
		}
	}
	if firstErr != nil && len(finds) == 0 {
		fmt.Printf("ERROR of the harness: %v\n", firstErr)
		return 2
	}
	exploreWall := time.Since(t0).Seconds()

	// Determinism: the same plans again, on other workers, must give the same traces.
	checked := 0
	if len(finds) == 0 {
		var bad atomic.Int64
		var idx atomic.Int64
		var wg sync.WaitGroup
		var derr error
		for i := 0; i < nw/2+1; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				k := newWorker(bin, binConc)
				for {
					n := int(idx.Add(1) - 1)
					if n >= len(plans) {
						return
					}
					err := protect(func() {
						x, v := execute(k, p, plans[n])
						if h := x.w.traceHash(); h != hashes[n] || v != nil {
							bad.Add(1)
							if d := os.Getenv("SIM_DUMP"); d != "" {
								y, _ := execute(k, p, plans[n])
								os.WriteFile(fmt.Sprintf("%s.%d.a", d, n), []byte(strings.Join(traces[n], "\n")), 0644)
								os.WriteFile(fmt.Sprintf("%s.%d.b", d, n), []byte(strings.Join(x.w.trace, "\n")), 0644)
								os.WriteFile(fmt.Sprintf("%s.%d.c", d, n), []byte(strings.Join(y.w.trace, "\n")), 0644)
							}
						}
					})
					if err != nil {
						mu.Lock()
						derr = err
						mu.Unlock()
						return
					}
				}
			}()
		}
		wg.Wait()
		checked = len(plans)
		if derr != nil {
			fmt.Printf("ERROR of the harness: %v\n", derr)
			return 2
		}
		if bad.Load() > 0 {
			fmt.Printf("ERROR of the harness: %d of %d re-executed runs differ from their first execution\n", bad.Load(), checked)
			return 2
		}
	}

	status := 0
	var outLines []string
	if len(finds) > 0 {
		sort.Slice(finds, func(i, j int) bool { return finds[i].index < finds[j].index })
		f := finds[0]
		k := newWorker(bin, binConc)
		path := filepath.Join(verifDir, "evidence", "replay-"+p.ID+".json")
		err := protect(func() {
			min, mv := minimise(k, p, f.plan, f.v, 250)
			x, v := execute(k, p, clonePlan(min))
			if v == nil || v.Class != mv.Class {
				hfail("the minimised run does not reproduce: %v then %v", mv, v)
			}
			tr := x.w.trace
			if len(tr) > 4000 {
				tr = tr[len(tr)-4000:]
			}
			rf := &replayFile{p.ID, v, seed, f.index, x.w.traceHash(), planSize(f.plan), planSize(min), min, tr}
			b, err := json.MarshalIndent(rf, "", " ")
			if err != nil {
				hfail("%v", err)
			}
			os.MkdirAll(filepath.Dir(path), 0755)
			if err := os.WriteFile(path, b, 0644); err != nil {
				hfail("%v", err)
			}
			// The replay must give the same violation in a fresh process.
			self, _ := os.Executable()
			out, err := exec.Command(self, "replay", bin, binConc, verifDir, path).CombinedOutput()
			if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 {
				hfail("replaying %s in a fresh process did not reproduce the violation: %v\n%s", path, err, out)
			}
			fmt.Printf("violation in run %d (of %d found): %s: %s\n", f.index, len(finds), v.Class, v.Msg)
			fmt.Printf("minimised from %s to %s\n", rf.Original, rf.Minimised)
			for _, s := range min.Steps {
				fmt.Printf("  %s\n", stepLabel(s))
			}
			outLines = append(outLines, fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, path))
		})
		if err != nil {
			fmt.Printf("ERROR of the harness: %v\n", err)
			return 2
		}
		status = 1
	}
	for _, kn := range knowns {
		if kn.prop == p.ID {
			outLines = append(outLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", p.ID, kn.text))
		}
	}

	wall := time.Since(t0).Seconds()
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":          total.Runs,
			"distinct_nontrivial":  len(total.Shapes),
			"rule":                 p.Rule + " A run is one seeded history of simulated commands; it is non-trivial when a fault fired, a clock moved, a schedule was chosen or the data at the bank changed; distinct counts different sequences of (event, fault class, outcome).",
			"samples":              samples,
			"nontrivial_runs":      total.Nontrivial,
			"runs_planned":         runs,
			"simulated_processes":  total.Procs,
			"simulated_operations": total.Ops,
			"runs_per_hour":        int(float64(total.Runs) / exploreWall * 3600),
			"seeds_per_hour":       int(float64(total.Runs) / exploreWall * 3600),
			"simulated_hours":      float64(total.SimNs) / 3.6e12,
			"faults_fired":         total.Faults,
			"probes":               total.Probes,
			"unmodelled_syscalls":  total.Unmod,
			"determinism_rechecks": checked,
			"real_components":      p.Real,
			"stubbed_components":   p.Stub,
			"exhaustive":           false,
		},
		"assumptions": p.Assume,
		"wall_s":      wall,
		"violations":  len(finds),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", p.ID+".json"), b, 0644); err != nil {
		fmt.Printf("ERROR of the harness: %v\n", err)
		return 2
	}
	fmt.Printf("%d runs (%d non-trivial, %d distinct), %d simulated processes, %d operations, %.1f simulated hours, %.1f s\n",
		total.Runs, total.Nontrivial, len(total.Shapes), total.Procs, total.Ops, float64(total.SimNs)/3.6e12, wall)
	fmt.Printf("faults fired: %s\n", strings.Join(countList(total.Faults), " "))
	fmt.Printf("probes: %s\n", strings.Join(countList(total.Probes), " "))
	if len(total.Unmod) > 0 {
		fmt.Printf("unmodelled system calls: %v\n", total.Unmod)
	}
	if total.Runs == 0 || (status == 0 && total.Nontrivial == 0) {
		fmt.Printf("ERROR of the harness: nothing was explored\n")
		return 2
	}
	for _, l := range outLines {
		fmt.Println(l)
	}
	return status
}

func runReplay(bin, binConc, path string, show bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	p := properties[rf.Property]
	if p == nil {
		fmt.Println("unknown property", rf.Property)
		return 2
	}
	status := 2
	perr := protect(func() {
		x, v := execute(newWorker(bin, binConc), p, rf.Plan)
		if show {
			for _, l := range x.w.trace {
				fmt.Println(l)
			}
		}
		if v == nil {
			fmt.Println("no violation: the property held on this replay")
			status = 0
			return
		}
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
		if h := x.w.traceHash(); h != rf.TraceHash {
			fmt.Printf("note: trace %s differs from the recorded %s\n", h, rf.TraceHash)
			if !show {
				status = 3
				return
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		status = 1
	})
	if perr != nil {
		fmt.Println("ERROR of the harness:", perr)
		return 2
	}
	return status
}
