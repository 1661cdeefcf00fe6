package main

import (
	"bytes"
	"fmt"
	"strings"
)

// Scenario "paging": commands used at a terminal, where a pager shows what is
// taller than it. The pager is left early, fails, or cannot be started.

type Paging struct {
	l    *lworld
	max  int
	done int
}

// wideTerminal is wider than any line of a report, so that nothing is shortened.
const wideTerminal = 5000

func pagingCfg(prop string, r *rng) *Step {
	c := &Step{Op: "cfg", N: map[string]int64{}, S: map[string]string{}}
	c.N["seed"] = int64(r.u64() >> 1)
	c.N["opttx"] = []int64{2, 5, 12, 30, 80, 250}[weighted(r, 1, 1, 4, 4, 2, 1)]
	c.N["start"] = int64(r.intn(900*24*3600)) * sec
	c.S["less"] = []string{"yes", "none", "plain", "dir"}[weighted(r, 20, 1, 1, 1)]
	return c
}

func (b *Paging) Init(x *Exec) {
	r := newRng(uint64(x.cfg.n("seed")))
	w := x.k.world(epoch + x.cfg.n("start"))
	x.w = w
	b.l = buildLedger(r, w.now, int(x.cfg.n("opttx")), nil)
	b.l.install(w)
	switch x.cfg.S["less"] {
	case "yes", "plain":
		w.fs.put("/usr/bin/less", []byte("\x7fELF"))
		if x.cfg.S["less"] == "yes" {
			w.fs.lookup("/usr/bin/less").mode = 0755
		}
	case "dir":
		w.fs.mkdirAll("/usr/bin/less")
	}
	b.max = 3 + r.intn(4)
	w.maxOps = 200000
}

func (b *Paging) Next(x *Exec, r *rng) *Step {
	if b.done >= b.max {
		return nil
	}
	b.done++
	c := b.l.command(r, cmdKinds{register: 6, report: 4, accts: 3, export: 1})
	if !r.chance(1, 6) {
		for i, a := range c.Args {
			switch {
			case strings.HasPrefix(a, "--type=") && c.Args[0] == "register":
				c.Args[i] = "--type=Text"
			case strings.HasPrefix(a, "--type=") && c.Args[0] == "report":
				c.Args[i] = "--type=Text"
				c.Args = append(c.Args[:i+1:i+1], append([]string{"--sum"}, c.Args[i+1:]...)...)
			case a == "--json":
				c.Args[i] = "--all"
			}
		}
		if c.Args[0] == "register" && r.chance(2, 3) {
			n := len(c.Args) - 1
			c.Args[n] = ".*"
			if r.chance(1, 2) { // an account that is no regular expression, found late
				c.Args = append(c.Args[:n:n], "map=/^"+r.pick([]string{"Income", "Expense:Food", "Liability.*"})+".*$/"+r.pick([]string{"Zoo:Odd(", "Yak:[a", "Zoo:*x"})+"/", ".*")
			}
		}
	}
	cols := 20 + r.intn(140)
	if r.chance(1, 3) {
		cols = wideTerminal
	}
	c.Tty = fmt.Sprintf("%dx%d", cols, []int{1, 3, 8, 24, 50}[weighted(r, 3, 6, 4, 3, 1)])
	env := map[string]string{"PATH": "/usr/local/bin:/usr/bin:/bin"}
	for k, v := range c.Env {
		env[k] = v
	}
	c.Env = env
	s := &Step{Op: c.Args[0], Cmds: []*Cmd{c}}
	res := x.w.fork().run(bare(c))
	var ops []opRec
	for _, o := range res.ops {
		switch {
		case o.class == "pipew" || o.class == "pipe" || o.class == "spawn" || o.class == "wait":
			ops = append(ops, o)
		case o.class == "stat" && strings.HasSuffix(o.path, "/less"):
			ops = append(ops, o)
		}
	}
	for k := weighted(r, 2, 5, 2); k > 0 && len(ops) > 0; k-- {
		// As often at each of the kinds of operation.
		kinds := map[string][]opRec{}
		for _, o := range ops {
			kinds[o.class] = append(kinds[o.class], o)
		}
		ks := sortedKeys(kinds)
		of := kinds[ks[r.intn(len(ks))]]
		if r.chance(1, 2) && len(kinds["pipew"]) > 0 {
			of = kinds["pipew"]
		}
		o := of[r.intn(len(of))]
		acts := map[string][]string{"pipew": {"quit", "quit", "die", "EINTR", "short"}, "pipe": {"EMFILE", "ENFILE"}, "spawn": {"EAGAIN", "ENOMEM", "EACCES", "ENOENT", "ENOEXEC"},
			"wait": {"die", "quit", "EINTR"}, "stat": {"EACCES", "EIO", "ENOENT"}}[o.class]
		f := drawFault(r, o, r.pick(acts))
		if f.Act == "die" {
			f.Arg = int64(r.intn(20))
		}
		c.Faults = append(c.Faults, f)
	}
	return s
}

func (b *Paging) Do(x *Exec, s *Step) *Violation {
	w := x.w
	x.sig = true
	c := s.Cmds[0]
	x.note("%s at %s", strings.Join(c.Args[:min(2, len(c.Args))], " "), c.Tty)
	// What the terminal shows without a pager.
	d := bare(c)
	d.Env = map[string]string{}
	for k, v := range c.Env {
		d.Env[k] = v
	}
	d.Env["PATH"] = "/nothing"
	ref := w.fork().run(d)
	if ref.Overrun {
		x.probe("too long a report")
		return nil
	}
	if strings.HasPrefix(c.Tty, fmt.Sprintf("%dx", wideTerminal)) {
		d.Tty = ""
		q := w.fork().run(d)
		if q.Exit != ref.Exit || !bytes.Equal(q.Stdout, ref.Stdout) {
			return viol("terminal-differs", "%q prints other output at a terminal of %s (exit %d) than elsewhere (exit %d): %s", strings.Join(c.Args, " "), c.Tty, ref.Exit, q.Exit, diffText(q.Stdout, ref.Stdout))
		}
		x.probe("compared with the output elsewhere")
	}
	res := w.run(c)
	for _, f := range res.fired {
		x.note("%s", f)
	}
	label := fmt.Sprintf("%q at a terminal of %s", strings.Join(c.Args, " "), c.Tty)
	t := &res.term
	what := faultText(c, res)
	early, failed := false, false
	for _, g := range t.pagers {
		early = early || g.early
		failed = failed || g.failed
	}
	switch {
	case len(t.pagers) == 0:
		x.probe("shown without a pager")
	case failed:
		x.probe("the pager failed")
	case early:
		x.probe("the pager was left early")
	case !ref.ok():
		x.probe("failed after the pager was started")
	default:
		x.probe("shown in the pager")
	}
	if len(t.pagers) == 0 && len(res.fired) > 0 {
		x.probe("the pager could not be started")
	}
	if res.Overrun {
		return viol("no-end", "%s does not end after %s", label, what)
	}
	if t.over != "" {
		return viol("written-over", "%s writes on the terminal while the pager has it (%s): %s", label, what, cut(t.over, 200))
	}
	if t.orphan {
		return viol("pager-left", "%s ends (exit %d, %s) while the pager it started is still running (%s)", label, res.Exit, errText(res), what)
	}
	if early || failed {
		if !bytes.HasPrefix(ref.Stdout, t.screen) {
			return viol("incomplete", "%s: %s; what was shown until then is not how the output begins: %s", label, what, diffText(ref.Stdout, t.screen))
		}
		if failed && res.ok() && !bytes.Equal(ref.Stdout, t.screen) {
			return viol("unseen", "%s exits 0 although the pager failed (%s) and %d of %d bytes were shown", label, what, len(t.screen), len(ref.Stdout))
		}
		if !failed && res.Exit != ref.Exit {
			return viol("exit-differs", "%s exits %d (%s) when the pager is left early (%s), and %d without a pager", label, res.Exit, errText(res), what, ref.Exit)
		}
		return nil
	}
	if !bytes.Equal(ref.Stdout, t.screen) {
		return viol("incomplete", "%s: the terminal does not show the complete output (%s): %s", label, what, diffText(ref.Stdout, t.screen))
	}
	if res.Exit != ref.Exit {
		return viol("exit-differs", "%s exits %d (%s) after %s, and %d without a pager", label, res.Exit, errText(res), what, ref.Exit)
	}
	if a, b := noAddrs(string(ref.Stderr)), noAddrs(string(res.Stderr)); a != b {
		return viol("message-differs", "%s prints other messages with a pager (%s): %s", label, what, diffText([]byte(a), []byte(b)))
	}
	return nil
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (b *Paging) Finish(x *Exec) *Violation { return nil }

func init() {
	register(&Property{ID: "O03", Scenarios: []ScenarioDef{{Name: "paging", Weight: 1, Cfg: pagingCfg, New: func(string) Scenario { return &Paging{} }}}, Quick: 900, Thorough: 14000,
		Real:   []string{"goledger binary: cmd/*, loader, book, cobra, x/term, x/text (compiled from /repo)", "Go runtime and standard library (os/exec, bufio, os, fmt)"},
		Stub:   []string{"kernel: terminal, pipes, child processes, files, clock and random source (simulated system calls)", "less: a simulated child that shows what it reads, is left early, fails or does not start"},
		Rule:   "a run is a generated ledger and 3-6 commands at terminals of different sizes, with a pager that is left early, fails, or cannot be started; each is compared with its run without a pager; distinct by the sequence of commands, terminals and injected faults",
		Assume: []string{"the pager shows what it has read when it ends; one that ends with a status other than 0 may have shown less"}})
}
