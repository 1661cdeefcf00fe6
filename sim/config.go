package main

import (
	"bytes"
	"fmt"
	"path"
	"strings"
)

// Scenario "config": the first runs of the program on a machine, which create
// the default configuration, under kills, power failures, disk errors and
// overlap, with a user who may write a configuration of their own meanwhile.

type Config struct {
	env      map[string]string
	target   string   // where a default configuration is created; "" if nowhere
	cands    []string // where the program looks, in order
	user     map[string]string
	def      []byte // the complete default, as an undisturbed first run writes it
	max      int
	done     int
	mix      faultMix
	watchAll []string
}

func newConfig(prop string) Scenario { return &Config{} }

func configCfg(prop string, r *rng) *Step {
	c := &Step{Op: "cfg", N: map[string]int64{}, S: map[string]string{}}
	c.N["seed"] = int64(r.u64() >> 1)
	c.N["start"] = int64(r.intn(900*24*3600)) * sec
	c.N["place"] = int64(weighted(r, 3, 3, 5, 3, 2, 1))
	c.N["optexist"] = int64(weighted(r, 4, 1, 1, 1, 1, 1))
	c.N["opttwo"] = int64(r.intn(2))
	c.N["optdecoy"] = int64(r.intn(2))
	return c
}

const userConfig = `# my settings -- "quoted", tabs	and umlauts äöü
ledger = "/work/main.ledger"
lang   =   'en'

[report]
type = "Text"
sum = false

[macros]
all = ["map=/^(.*)$/$1/"]

[register]
type = "Text"
asc = true
count = 1
`

const otherConfig = `
[report]
type = "Ledger"
credit = "^Asset:"

[register]
count = -1
`

const configLedger = "2020/01/02 Shop\n  Asset:Bank  £-10.00\n  Expense:Food  £10.00\n\n2020/02/03 * Baker\n  Asset:Bank  £-3.20\n  Expense:Food\n"

func (s *Config) Init(x *Exec) {
	c := x.cfg
	r := newRng(uint64(c.n("seed")))
	w := x.k.world(epoch + c.n("start"))
	x.w = w
	w.fs.put("/work/main.ledger", []byte(configLedger))
	s.env = map[string]string{}
	home := "/home/u"
	switch c.n("place") {
	case 0:
		s.target = "/home/u/g.toml"
		s.env["GOLEDGER_CONF"] = s.target
	case 1:
		s.target = "/home/u/conf/deep/er/g.toml"
		s.env["GOLEDGER_CONF"] = s.target
	case 2:
		s.target = "/home/u/.config/goledger/goledger.toml"
		if r.chance(1, 2) {
			w.fs.mkdirAll("/home/u/.config")
		}
	case 3:
		s.target = "/home/u/xdg/goledger/goledger.toml"
		s.env["XDG_CONFIG_HOME"] = "/home/u/xdg"
	case 4:
		s.target = "/work/conf/g.toml"
		s.env["GOLEDGER_CONF"] = "conf/g.toml"
	case 5:
		home = ""
		s.env["HOME"] = ""
	}
	local := []string{"/work/goledger.toml", "/work/goledger.cfg"}
	inHome := []string{"/home/u/goledger.toml", "/home/u/goledger.cfg", "/home/u/.goledger.toml", "/home/u/.goledger.cfg"}
	switch {
	case s.env["GOLEDGER_CONF"] != "":
		s.cands = []string{s.target}
	case home != "":
		s.cands = append([]string{s.target, strings.TrimSuffix(s.target, ".toml") + ".cfg"}, inHome...)
		s.cands = append(s.cands, local...)
	default:
		s.cands = local
	}
	// A configuration may exist already, of any kind.
	s.user = map[string]string{}
	content := userConfig
	switch c.n("optexist") {
	case 2:
		content = "" // an empty file is a configuration
	case 3:
		content = "this is not [ toml\n"
	case 4:
		content = userConfig + "\n[nosuch]\nthing = 1\n"
	}
	if c.n("optexist") > 0 {
		p := s.cands[r.intn(len(s.cands))]
		s.user[p] = content
		w.fs.put(p, []byte(content))
	}
	if c.n("optexist") > 0 && c.n("opttwo") == 1 {
		// Only the first one counts.
		p := s.cands[r.intn(len(s.cands))]
		if _, ok := s.user[p]; !ok {
			s.user[p] = otherConfig
			w.fs.put(p, []byte(otherConfig))
		}
	}
	if c.n("optdecoy") == 1 {
		// Files that the program must leave alone whatever it looks at.
		for _, p := range []string{"/home/u/.goledger.toml", "/work/goledger.toml", "/home/u/.config/goledger/goledger.cfg"} {
			known := false
			for _, q := range s.cands {
				known = known || p == q
			}
			if !known && r.chance(1, 2) {
				s.user[p] = userConfig
				w.fs.put(p, []byte(userConfig))
			}
		}
	}
	s.max = 3 + r.intn(4)
	s.mix = randomMix(r)
	s.mix.http = false
	w.fs.syncAll()
	// What a first run creates on a machine like this without a configuration.
	g := w.fork()
	for _, q := range s.cands {
		g.fs.remove(q)
	}
	res := g.run(s.cmd(1, "accts"))
	s.def, _ = g.fs.get(s.target)
	if s.target == "" {
		s.def = nil
	}
	if !res.ok() {
		w.tracef("undisturbed first run fails: %d %s", res.Exit, res.Stderr)
	}
}

func (s *Config) cmd(seed uint64, what string) *Cmd {
	args := map[string][]string{
		"accts":    {"accts"},
		"ccy":      {"ccy"},
		"register": {"register", "--type=Text", "--asc", "Asset.*"},
		"report":   {"--ccy", "£", "report"},
		"text":     {"report", "--convert=false", "--ccy", "£"},
		"export":   {"export"},
		"help":     {"help", "config"},
	}[what]
	return &Cmd{Args: append([]string{"--ledger", "/work/main.ledger"}, args...), Env: s.env, Seed: seed}
}

// existing says whether the program will find a configuration.
func (s *Config) existing(fs *vfs) string {
	for _, p := range s.cands {
		if _, ok := fs.get(p); ok {
			return p
		}
	}
	return ""
}

func (s *Config) Next(x *Exec, r *rng) *Step {
	if s.done >= s.max {
		return nil
	}
	s.done++
	kinds := []string{"accts", "ccy", "register", "report", "text", "export", "help"}
	st := &Step{Op: "run", N: map[string]int64{}, S: map[string]string{}}
	switch k := weighted(r, 5, 3, 2, 1, 1); {
	case k == 2:
		st.Op = "calm"
		for i := range kinds {
			st.Cmds = append(st.Cmds, s.cmd(r.u64()>>1, kinds[i]))
		}
		return st
	case k == 3:
		st.Op = "powerloss"
		st.N["seed"] = int64(r.u64() >> 1)
		return st
	case k == 4 && s.target != "":
		st.Op = "reset" // the user removes the file to start again
		return st
	case k == 1:
		for i, n := 0, 2+r.intn(3); i < n; i++ {
			st.Cmds = append(st.Cmds, s.cmd(r.u64()>>1, r.pick(kinds)))
		}
		st.Sched = r.u64() >> 1
	default:
		st.Cmds = []*Cmd{s.cmd(r.u64()>>1, r.pick(kinds))}
	}
	if s.target != "" && r.chance(1, 3) {
		// The user saves a configuration of their own at some moment.
		st.N["edit"] = int64(1 + r.intn(30*len(st.Cmds)))
		st.N["ver"] = int64(s.done)
	}
	focus := []string{normPath(s.target)}
	if p := s.existing(x.w.fs); p != "" {
		focus = []string{normPath(p)}
	}
	nolinks := st.n("edit") == 0 && r.chance(1, 6) // a file system without hard links
	for _, c := range st.Cmds {
		if nolinks {
			c.Faults = append(c.Faults, Fault{Op: "link", Nth: 1, Count: -1, Act: "EPERM"})
		}
		if r.chance(1, 2) {
			continue
		}
		g := x.w.fork()
		ref := g.run(c)
		var ops []opRec
		for _, o := range ref.ops {
			if o.class != "time" && o.class != "stdout" && o.class != "stderr" && !strings.HasPrefix(o.path, "/work/main") {
				ops = append(ops, o)
			}
		}
		c.Faults = append(c.Faults, placeFaults(r, ops, s.mix, focus, 2)...)
		if len(st.Cmds) > 1 {
			// One machine: only one power switch.
			k := 0
			for _, f := range c.Faults {
				if !strings.Contains(f.Act, "power") || c == st.Cmds[0] {
					c.Faults[k] = f
					k++
				}
			}
			c.Faults = c.Faults[:k]
		}
	}
	return st
}

// intact checks that no configuration the user has was touched.
func (s *Config) intact(fs *vfs, when string) *Violation {
	for _, p := range sortedKeys(s.user) {
		b, ok := fs.get(p)
		if !ok {
			return viol("user-config-removed", "%s the existing configuration file %s is gone", when, p)
		}
		if string(b) != s.user[p] {
			return viol("user-config-changed", "%s the existing configuration file %s was changed: %s", when, p, diffText([]byte(s.user[p]), b))
		}
	}
	for _, p := range s.cands {
		if _, ok := s.user[p]; ok {
			continue
		}
		b, ok := fs.get(p)
		if !ok {
			continue
		}
		if p != s.target {
			return viol("unexpected-file", "%s there is a configuration file %s that nobody asked for", when, p)
		}
		if !bytes.Equal(b, s.def) {
			return viol("torn-default", "%s the configuration file %s is neither absent nor the complete default: %s", when, p, diffText(s.def, b))
		}
	}
	return nil
}

func (s *Config) Do(x *Exec, st *Step) *Violation {
	w := x.w
	switch st.Op {
	case "powerloss":
		d := w.fs.powerLoss(newRng(uint64(st.n("seed"))))
		w.tracef("power loss: %s", d)
		x.note("powerloss")
		return s.intact(w.fs, "after a power loss")
	case "reset":
		if s.target != "" {
			if _, ok := w.fs.get(s.target); ok {
				w.fs.remove(s.target)
			}
			delete(s.user, s.target)
		}
		x.note("reset")
		return nil
	}
	x.note("%s%d", st.Op, len(st.Cmds))
	if st.Op == "calm" {
		for _, c := range st.Cmds {
			if v := s.calm(x, w, c, "a later undisturbed run"); v != nil {
				return v
			}
		}
		return nil
	}

	was := s.existing(w.fs)
	before := w.fork()
	var v *Violation
	set := func(n *Violation) {
		if v == nil && n != nil {
			v = n
		}
	}
	nops := int64(0)
	edited := false
	w.stepHook = func() {
		nops++
		if st.n("edit") != nops || s.target == "" {
			return
		}
		set(s.intact(w.fs, "while a command runs"))
		mine := fmt.Sprintf("%s\n# revision %d\n", userConfig, st.n("ver"))
		w.fs.put(s.target, []byte(mine))
		w.tracef("the user saves %s", s.target)
		s.user[s.target] = mine
		edited = true
		x.probe("user saves a configuration meanwhile")
	}
	nmut := 0
	w.mutHook = func(p *proc, class string) {
		set(s.intact(w.fs, "while a command runs (after "+class+")"))
		nmut++
		c := w.fs.clone()
		c.powerLoss(newRng(mix(st.Cmds[0].Seed, uint64(nmut))))
		set(s.intact(c, "after a power loss following "+class))
	}
	var choose func(n int) int
	if len(st.Cmds) > 1 {
		sr := newRng(st.Sched)
		runLen, cur := 0, 0
		choose = func(n int) int {
			if runLen == 0 || cur >= n {
				cur = sr.intn(n)
				runLen = 1 + sr.intn(8)
			}
			runLen--
			return cur
		}
	}
	rs := w.runAll(st.Cmds, w.bin, choose)
	w.stepHook, w.mutHook = nil, nil
	x.sig = true
	clean := true
	for _, r := range rs {
		x.note("%s:%v", strings.Join(uniq(append([]string(nil), r.fired...)), ","), r.ok())
		for _, f := range r.fired {
			if f != "EINTR" && f != "short" {
				clean = false
			}
		}
		if r.Killed != "" {
			clean = false
		}
	}
	if v != nil {
		return v
	}
	if was == "" && s.target != "" {
		x.probe("first run")
	}
	if edited {
		x.probe("user's configuration survives")
	}
	if v := s.intact(w.fs, "after the command"); v != nil {
		return v
	}
	if _, had := before.fs.get(s.target); was != "" && was != s.target && !had && !edited {
		if _, ok := w.fs.get(s.target); ok {
			return viol("unexpected-file", "a default configuration %s was created beside the existing %s", s.target, was)
		}
	}
	for i, r := range rs {
		if r.Overrun {
			return viol("no-end", "%q does not end", strings.Join(st.Cmds[i].Args, " "))
		}
		if r.ok() && was == "" && s.target != "" && s.existing(w.fs) == "" {
			return viol("not-created", "%q exits 0 without a configuration and created none", strings.Join(st.Cmds[i].Args, " "))
		}
		if r.ok() && !edited && (was != "" || len(rs) == 1) {
			f := before.fork()
			ref := f.run(bare(st.Cmds[i]))
			if ref.ok() && !bytes.Equal(ref.Stdout, r.Stdout) {
				return viol("other-configuration", "%q exits 0 but does not print what it prints undisturbed with the configuration %s: %s", strings.Join(st.Cmds[i].Args, " "), s.describe(w, was), diffText(ref.Stdout, r.Stdout))
			}
			x.probe("output by the existing configuration")
		}
		if clean && !edited && !s.broken(w) && !r.ok() {
			return viol("undisturbed-run-fails", "%q exits %d without any fault (%s): %d runs at once", strings.Join(st.Cmds[i].Args, " "), r.Exit, errText(r), len(rs))
		}
	}
	// Whatever happened, the next run works.
	return s.calm(x, w.fork(), s.cmd(st.Cmds[0].Seed^0x77, "accts"), "the next undisturbed run")
}

// broken says that the user's own configuration is one the program rejects.
func (s *Config) broken(w *World) bool {
	p := s.existing(w.fs)
	t, ok := s.user[p]
	return ok && (strings.Contains(t, "[nosuch]") || strings.HasPrefix(t, "this is not"))
}

func (s *Config) calm(x *Exec, w *World, c *Cmd, what string) *Violation {
	was := s.existing(w.fs)
	bad := s.broken(w)
	r := w.run(bare(c))
	x.probe("undisturbed run")
	if v := s.intact(w.fs, "after "+what); v != nil {
		return v
	}
	if bad {
		if r.ok() {
			x.probe("unusable configuration accepted")
		}
		return nil
	}
	if !r.ok() {
		return viol("later-run-fails", "%s %q exits %d: %s (configuration: %s)", what, strings.Join(c.Args, " "), r.Exit, errText(r), s.describe(w, was))
	}
	if was == "" && s.target != "" {
		if _, ok := w.fs.get(s.target); !ok {
			return viol("not-created", "%s %q found no configuration and created none in %s", what, strings.Join(c.Args, " "), s.target)
		}
		r2 := w.run(bare(c))
		if !r2.ok() {
			return viol("default-rejected", "the default configuration %q just created is not accepted by the next run: %s", path.Base(s.target), errText(r2))
		}
		x.probe("default configuration accepted by the next run")
	}
	return nil
}

func (s *Config) describe(w *World, was string) string {
	switch {
	case was == "":
		return "none"
	case was == s.target && s.user[was] == "":
		return "the default"
	}
	return "the user's " + was
}

func (s *Config) Finish(x *Exec) *Violation {
	for i, k := range []string{"accts", "register"} {
		if v := s.calm(x, x.w, s.cmd(uint64(901+i), k), "a final undisturbed run"); v != nil {
			return v
		}
	}
	return nil
}

func init() {
	register(&Property{ID: "G01", Scenarios: []ScenarioDef{{Name: "config", Weight: 1, Cfg: configCfg, New: newConfig}}, Quick: 1000, Thorough: 20000,
		Real:   []string{"goledger binary: cmd/config.go and the commands it configures (compiled from /repo)", "Go runtime and standard library"},
		Stub:   []string{"kernel: files, directories, links, clock (simulated system calls)", "the user: a scripted editor that saves a configuration atomically at a drawn moment"},
		Rule:   "a run is a machine with one of six configuration locations, with or without an existing configuration, and 3-6 events: single or overlapping first runs with kills, power losses and disk errors, power losses, resets, edits by the user; distinct by the sequence of events and injected faults",
		Assume: []string{"hard links work on the simulated file system", "a lost directory entry takes the file with it"}})
}
