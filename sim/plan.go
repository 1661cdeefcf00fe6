package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// Step is one event of a simulated history: a command (or several at once), the
// passing of time, a power failure, or something that happens at a bank.
type Step struct {
	Op    string            `json:"op"`
	Cmds  []*Cmd            `json:"cmds,omitempty"`
	Sched uint64            `json:"sched,omitempty"` // decides the interleaving of several commands
	S     map[string]string `json:"s,omitempty"`
	N     map[string]int64  `json:"n,omitempty"`
}

func (s *Step) n(k string) int64 { return s.N[k] }

// Plan is everything a run depends on: replaying it gives the same execution.
type Plan struct {
	Property string  `json:"property"`
	Scenario string  `json:"scenario"`
	RunSeed  uint64  `json:"run_seed"`
	Cfg      *Step   `json:"cfg"`
	Steps    []*Step `json:"steps"`
}

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func viol(class, format string, a ...any) *Violation {
	return &Violation{class, fmt.Sprintf(format, a...)}
}

// Scenario is one kind of simulated deployment with its oracles.
type Scenario interface {
	Init(x *Exec)               // build the world from x.cfg
	Next(x *Exec, r *rng) *Step // choose the next event (nil: end of the run)
	Do(x *Exec, s *Step) *Violation
	Finish(x *Exec) *Violation
}

// Exec is one run in progress.
type Exec struct {
	prop  string
	k     *Worker
	w     *World
	cfg   *Step
	notes []string // shape of the run, for distinctness
	sig   bool     // something non-trivial happened
}

func (x *Exec) note(format string, a ...any) { x.notes = append(x.notes, fmt.Sprintf(format, a...)) }
func (x *Exec) probe(name string)            { x.k.stats.probe(name) }

func (x *Exec) shape() string {
	h := sha256.Sum256([]byte(strings.Join(x.notes, "|")))
	return hex.EncodeToString(h[:8])
}

// Property is one claimed property with its workload.
type Property struct {
	ID        string
	Scenarios []ScenarioDef
	Quick     int // runs
	Thorough  int
	Assume    []string
	Real      []string
	Stub      []string
	Rule      string
	Conc      bool // needs the variant with statement-level scheduling
}

type ScenarioDef struct {
	Name   string
	Weight int
	Cfg    func(prop string, r *rng) *Step
	New    func(prop string) Scenario
}

func (p *Property) scenario(name string) *ScenarioDef {
	for i := range p.Scenarios {
		if p.Scenarios[i].Name == name {
			return &p.Scenarios[i]
		}
	}
	return nil
}

// generate runs one fresh seeded simulation and returns its plan.
func generate(k *Worker, p *Property, seed uint64) (plan *Plan, x *Exec, v *Violation) {
	r := newRng(seed)
	w := make([]int, len(p.Scenarios))
	for i, s := range p.Scenarios {
		w[i] = s.Weight
	}
	sd := &p.Scenarios[weighted(r, w...)]
	plan = &Plan{Property: p.ID, Scenario: sd.Name, RunSeed: seed, Cfg: sd.Cfg(p.ID, r.fork())}
	x = &Exec{prop: p.ID, k: k, cfg: plan.Cfg}
	sc := sd.New(p.ID)
	sc.Init(x)
	x.note("%s", sd.Name)
	for i := 0; i < 200; i++ {
		s := sc.Next(x, r.fork())
		if s == nil {
			break
		}
		plan.Steps = append(plan.Steps, s)
		x.w.tracef("-- step %d %s", i, stepLabel(s))
		x.note("%s", s.Op)
		if v = sc.Do(x, s); v != nil {
			return plan, x, v
		}
	}
	v = sc.Finish(x)
	return plan, x, v
}

// execute replays a plan.
func execute(k *Worker, p *Property, plan *Plan) (x *Exec, v *Violation) {
	sd := p.scenario(plan.Scenario)
	if sd == nil {
		hfail("unknown scenario %s", plan.Scenario)
	}
	x = &Exec{prop: p.ID, k: k, cfg: plan.Cfg}
	sc := sd.New(p.ID)
	sc.Init(x)
	x.note("%s", sd.Name)
	for i, s := range plan.Steps {
		x.w.tracef("-- step %d %s", i, stepLabel(s))
		x.note("%s", s.Op)
		if v = sc.Do(x, s); v != nil {
			return x, v
		}
	}
	v = sc.Finish(x)
	return x, v
}

func stepLabel(s *Step) string {
	var p []string
	for _, k := range sortedKeys(s.N) {
		p = append(p, fmt.Sprintf("%s=%d", k, s.N[k]))
	}
	for _, k := range sortedKeys(s.S) {
		v := s.S[k]
		if len(v) > 60 {
			v = v[:60] + "..."
		}
		p = append(p, fmt.Sprintf("%s=%q", k, v))
	}
	for _, c := range s.Cmds {
		var f []string
		for _, x := range c.Faults {
			f = append(f, x.String())
		}
		if c.Switches > 0 {
			f = append(f, fmt.Sprintf("%d switches", c.Switches-1))
		}
		p = append(p, fmt.Sprintf("[%s {%s}]", strings.Join(c.Args, " "), strings.Join(f, "; ")))
	}
	return s.Op + " " + strings.Join(p, " ")
}

func clonePlan(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	var q Plan
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	return &q
}

// minimise shrinks a failing plan while the same class of violation persists.
func minimise(k *Worker, p *Property, plan *Plan, v *Violation, budget int) (*Plan, *Violation) {
	best, bestV := clonePlan(plan), v
	try := func(q *Plan) bool {
		if budget <= 0 {
			return false
		}
		budget--
		_, nv := execute(k, p, clonePlan(q))
		if nv != nil && nv.Class == v.Class {
			best, bestV = q, nv
			return true
		}
		return false
	}
	for again := true; again && budget > 0; {
		again = false
		for size := (len(best.Steps) + 1) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best.Steps); {
				q := clonePlan(best)
				q.Steps = append(q.Steps[:i:i], q.Steps[i+size:]...)
				if try(q) {
					again = true
				} else {
					i += size
				}
			}
		}
		for i := 0; i < len(best.Steps); i++ {
			for j := 0; j < len(best.Steps[i].Cmds) && len(best.Steps[i].Cmds) > 1; {
				q := clonePlan(best)
				c := q.Steps[i].Cmds
				q.Steps[i].Cmds = append(c[:j:j], c[j+1:]...)
				if try(q) {
					again = true
				} else {
					j++
				}
			}
			for j := 0; j < len(best.Steps[i].Cmds); j++ {
				for f := 0; f < len(best.Steps[i].Cmds[j].Faults); {
					q := clonePlan(best)
					fs := q.Steps[i].Cmds[j].Faults
					q.Steps[i].Cmds[j].Faults = append(fs[:f:f], fs[f+1:]...)
					if try(q) {
						again = true
					} else {
						f++
					}
				}
			}
			for j := 0; p.Conc && j < len(best.Steps[i].Cmds); j++ {
				// Fewer switches between goroutines.
				for n := 1; n <= 1<<12 && (best.Steps[i].Cmds[j].Switches == 0 || n < best.Steps[i].Cmds[j].Switches); n = n*5/4 + 1 {
					q := clonePlan(best)
					q.Steps[i].Cmds[j].Switches = n
					if try(q) {
						again = true
						break
					}
				}
			}
			for _, key := range sortedKeys(best.Steps[i].N) {
				if key != "count" && key != "ns" && key != "free" && key != "at" {
					continue
				}
				for best.Steps[i].N[key] > 1 {
					q := clonePlan(best)
					q.Steps[i].N[key] /= 2
					if !try(q) {
						break
					}
					again = true
				}
			}
		}
		for _, key := range sortedKeys(best.Cfg.N) {
			if !strings.HasPrefix(key, "opt") {
				continue
			}
			for best.Cfg.N[key] > 0 {
				q := clonePlan(best)
				q.Cfg.N[key] /= 2
				if !try(q) {
					break
				}
				again = true
			}
		}
	}
	return best, bestV
}

func planSize(p *Plan) string {
	f := 0
	for _, s := range p.Steps {
		for _, c := range s.Cmds {
			f += len(c.Faults)
		}
	}
	return fmt.Sprintf("%d steps, %d faults", len(p.Steps), f)
}

func uniq(s []string) []string {
	sort.Strings(s)
	var o []string
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			o = append(o, x)
		}
	}
	return o
}
