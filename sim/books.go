package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

// Scenario "books": commands on a ledger, under faults of what they read and
// write, changes of the clock, and different random streams.

type Books struct {
	prop  string
	l     *lworld
	max   int
	done  int
	r0    *rng
	ref   *procResult // reference of the step just generated
	refOf *Step
}

func newBooks(prop string) Scenario { return &Books{prop: prop} }

func booksCfg(prop string, r *rng) *Step {
	c := &Step{Op: "cfg", N: map[string]int64{}, S: map[string]string{}}
	c.N["seed"] = int64(r.u64() >> 1)
	c.N["opttx"] = []int64{2, 5, 12, 30, 80, 250}[weighted(r, 1, 2, 4, 4, 2, 1)]
	c.N["start"] = int64(r.intn(900*24*3600)) * sec
	if prop == "T01" {
		// Close to the end of a day, often of a month, quarter or year.
		t := epoch + int64(r.intn(900))*day
		if r.chance(3, 4) {
			y := 2021 + r.intn(4)
			m := []int{1, 1, 4, 7, 10, 2, 3, 9}[r.intn(8)]
			t = fromCivil(y, m, 1)
		} else {
			t -= t % day
		}
		c.S["tz"] = pickZone(r)
		c.N["start"] = t - zoneOffset(c.S["tz"], t) - int64(1+r.intn(2000))*1e6 - epoch
	}
	return c
}

func fromCivil(y, m, d int) int64 {
	if m <= 2 {
		y--
	}
	era := y / 400
	yoe := y - era*400
	mp := m + 9
	if m > 2 {
		mp = m - 3
	}
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return int64(era*146097+doe-719468) * day
}

func (b *Books) Init(x *Exec) {
	r := newRng(uint64(x.cfg.n("seed")))
	w := x.k.world(epoch + x.cfg.n("start"))
	x.w = w
	w.setZone(x.cfg.S["tz"])
	b.l = buildLedger(r, w.now, int(x.cfg.n("opttx")), nil)
	b.l.install(w)
	b.max = 3 + r.intn(4)
	w.maxOps = 200000
}

func (b *Books) kinds() cmdKinds {
	k := allCmds
	switch b.prop {
	case "I02":
		return cmdKinds{imp: 5, gen: 2}
	case "O01":
		k.print = true
	case "T01":
		return cmdKinds{register: 3, report: 5, export: 2, gen: 2, today: true}
	case "L01", "U01":
		k.imp, k.gen = 2, 1
	case "O02":
		k.imp, k.export, k.ccy = 4, 4, 2
	}
	return k
}

func (b *Books) Next(x *Exec, r *rng) *Step {
	if b.done >= b.max {
		return nil
	}
	b.done++
	c := b.l.command(r, b.kinds())
	s := &Step{Op: c.Args[0], Cmds: []*Cmd{c}}
	switch b.prop {
	case "O02":
		s.Op = "repeat"
		s.N = map[string]int64{}
		for i := 0; i < 3; i++ {
			d := *c
			d.Seed = r.u64() >> 1
			s.Cmds = append(s.Cmds, &d)
		}
		if r.chance(1, 3) { // goroutines, if any, go on in another order
			s.N["sched"] = 1
			for i, d := range s.Cmds {
				env := map[string]string{"GOSIM_YIELD": fmt.Sprint([]int{1, 3, 10, 1}[i])}
				for k, v := range d.Env {
					env[k] = v
				}
				d.Env = env
			}
		}
		s.S = map[string]string{}
		if r.chance(1, 6) {
			odd := oddCommands[r.intn(len(oddCommands))]
			for _, d := range s.Cmds {
				d.Args, d.Stdin = odd, ""
			}
		}
		if r.chance(1, 3) { // a file with other contents, often in error
			p := r.pick(b.l.order)
			if r.chance(1, 3) {
				p = r.pick(sortedKeys(b.l.aux))
			}
			s.S["path"] = p
			s.S["kind"] = r.pick([]string{"digits", "digits", "digits", "decimals", "drop", "dup", "swap", "other"})
			s.N["kseed"] = int64(r.u64() >> 1)
		}
		return s
	case "L02":
		p := r.pick(b.l.order)
		n := len(b.l.files[p])
		s.Op = "damage"
		s.S = map[string]string{"path": p}
		s.N = map[string]int64{}
		if n == 0 {
			return nil
		}
		switch r.intn(4) {
		case 0: // the tail, from a block boundary
			bs := []int{512, 4096, 64}[r.intn(3)]
			at := 0
			if n > bs {
				at = bs * (1 + r.intn((n-1)/bs))
				if at >= n {
					at = 0
				}
			}
			s.N["at"], s.N["len"] = int64(at), int64(n-at)
		case 1:
			at := r.intn(n)
			s.N["at"], s.N["len"] = int64(at), int64(1+r.intn(n-at))
		case 2:
			s.N["at"], s.N["len"] = int64(r.intn(n)), 1
		case 3: // one block in the middle
			bs := []int{64, 512, 4096}[r.intn(3)]
			at := r.intn(n/bs+1) * bs
			if at >= n {
				at = 0
			}
			s.N["at"], s.N["len"] = int64(at), int64(min(bs, n-at))
		}
		return s
	}
	b.ref = x.w.fork().run(bare(c))
	b.refOf = s
	switch b.prop {
	case "T01":
		nt := 0
		for _, o := range b.ref.ops {
			if o.class == "time" {
				nt++
			}
		}
		if nt > 0 {
			for i, k := 0, 1+weighted(r, 4, 1); i < k; i++ {
				f := Fault{Op: "time", Nth: 1 + r.intn(nt), Act: "jump", Arg: []int64{2 * sec, 2 * sec, day, -day, 40 * day, -2 * sec, 400 * day}[weighted(r, 6, 2, 2, 1, 1, 1, 1)]}
				c.Faults = append(c.Faults, f)
			}
		}
	case "U01":
		m := randomMix(r)
		m.errs = m.errs || !m.kill && !m.power
		c.Faults = placeFaults(r, b.ref.ops, m, nil, 3)
	default:
		ops := b.relevant(b.ref.ops, c)
		m := faultMix{errs: r.chance(3, 4), soft: true}
		if b.prop == "O01" && r.chance(1, 6) {
			m.soft = false
		}
		c.Faults = placeFaults(r, ops, m, nil, 3)
		// A transfer that is cut short and fails when it is continued.
		if b.prop == "O01" || r.chance(2, 3) {
			if fs := shortThenError(r, ops, b.lineEnd(r, c)); fs != nil {
				c.Faults = fs
				return s
			}
		}
		// A failure may persist.
		for i := range c.Faults {
			if diskErr(c.Faults[i].Act) && r.chance(1, 3) {
				c.Faults[i].Count = -1
			}
		}
		if b.prop == "L01" && len(b.l.order) > 1 && r.chance(1, 6) {
			p := b.l.order[1+r.intn(len(b.l.order)-1)]
			c.Faults = []Fault{{Op: "open", Path: normPath(p), Nth: 1, Count: -1, Act: r.pick([]string{"ENOENT", "EACCES"})}}
		}
		if b.prop == "L01" && r.chance(1, 10) {
			p := r.pick(b.l.order)
			c.Faults = []Fault{{Op: "read", Path: normPath(p), Nth: 1, Count: -1, Act: "EISDIR"}}
		}
	}
	return s
}

// shortThenError makes one transfer, often a last one, incomplete and the next one of the file fail.
// cut may move the point where the first transfer of a file ends.
func shortThenError(r *rng, ops []opRec, cut func(o opRec, at int64) int64) []Fault {
	if !r.chance(1, 4) {
		return nil
	}
	var moves []opRec
	for _, o := range ops {
		if (o.class == "stdout" || o.class == "stdin" || o.class == "read") && o.n > 1 {
			moves = append(moves, o)
		}
	}
	if len(moves) == 0 {
		return nil
	}
	o := moves[len(moves)-1-min(r.intn(len(moves)), r.intn(len(moves)))]
	errs := []string{"EIO", "ESTALE"}
	if o.class == "stdout" {
		o = moves[len(moves)-1-min(r.intn(len(moves)), r.intn(3))]
		errs = []string{"ENOSPC", "EPIPE", "EIO"}
	}
	n := o.n - 1
	if o.class != "stdout" && r.chance(3, 4) {
		n = min(n, []int{40, 200, 1000}[r.intn(3)]) // of a large buffer
	}
	at := int64(1 + r.intn(n))
	if cut != nil {
		at = cut(o, at)
	}
	return []Fault{{Op: o.class, Path: o.path, Nth: o.nthPath, Act: "short", Arg: at},
		{Op: o.class, Path: o.path, Nth: o.nthPath + 1, Act: r.pick(errs), Count: -1 + r.intn(2)*2}}
}

// lineEnd moves the end of the first transfer of a file to that of a line.
func (b *Books) lineEnd(r *rng, c *Cmd) func(o opRec, at int64) int64 {
	if r.chance(1, 3) {
		return nil
	}
	return func(o opRec, at int64) int64 {
		text := ""
		for _, m := range []map[string]string{b.l.files, b.l.aux} {
			for p, t := range m {
				if normPath(p) == o.path {
					text = t
				}
			}
		}
		if o.class == "stdin" {
			text = c.Stdin
		}
		if o.nthPath != 1 || at > int64(len(text)) {
			return at
		}
		if i := strings.LastIndexByte(text[:at], '\n'); i >= 0 {
			return int64(i + 1)
		}
		if i := strings.IndexByte(text, '\n'); i >= 0 && i+1 < o.n {
			return int64(i + 1)
		}
		return at
	}
}

func diskErr(a string) bool {
	_, ok := errnoByName[a]
	return ok && a != "EINTR"
}

// relevant keeps the operations a property's faults may hit.
func (b *Books) relevant(ops []opRec, c *Cmd) []opRec {
	want := map[string]bool{}
	switch b.prop {
	case "L01":
		for _, p := range b.l.order {
			want[normPath(p)] = true
		}
		want["/work/style.css"] = true
	case "I02":
		for p := range b.l.aux {
			if p != "/home/u/g.toml" && p != "/work/style.css" {
				want[normPath(p)] = true
			}
		}
	}
	var out []opRec
	for _, o := range ops {
		switch b.prop {
		case "O01":
			if o.class == "stdout" {
				out = append(out, o)
			}
		case "L01":
			if want[o.path] {
				out = append(out, o)
			}
		case "I02":
			if want[o.path] || o.class == "stdin" {
				out = append(out, o)
			}
		}
	}
	return out
}

func bare(c *Cmd) *Cmd {
	d := *c
	d.Faults = nil
	return &d
}

func (b *Books) Do(x *Exec, s *Step) *Violation {
	w := x.w
	x.sig = true
	for _, c := range s.Cmds {
		x.note("%s", strings.Join(c.Args[:min(2, len(c.Args))], " "))
	}
	switch b.prop {
	case "O02":
		return b.doRepeat(x, s)
	case "L02":
		return b.doDamage(x, s)
	case "U01":
		return b.doUntouched(x, s)
	}
	c := s.Cmds[0]
	ref := b.ref
	if b.refOf != s {
		ref = w.fork().run(bare(c))
	}
	if b.prop == "T01" {
		return b.doToday(x, s, ref)
	}
	res := w.run(c)
	b.probes(x, ref, res)
	for _, f := range res.fired {
		x.note("%s", f)
	}
	onlyBenign := true
	for _, f := range res.fired {
		if !(f == "EINTR" || f == "short") {
			onlyBenign = false
		}
	}
	label := strings.Join(c.Args, " ")
	if res.ok() {
		if !bytes.Equal(res.Stdout, ref.Stdout) || !ref.ok() {
			return viol("partial-output", "%q exited 0 although %s; its output differs from the undisturbed run (exit %d): %s", label, faultText(c, res), ref.Exit, diffText(ref.Stdout, res.Stdout))
		}
		return nil
	}
	if res.Overrun {
		return viol("no-end", "%q does not end after %s", label, faultText(c, res))
	}
	if onlyBenign && (res.Exit != ref.Exit || !bytes.Equal(res.Stdout, ref.Stdout)) {
		return viol("benign-failure", "%q exits %d (%s) although only %s happened; undisturbed it exits %d", label, res.Exit, errText(res), faultText(c, res), ref.Exit)
	}
	if b.prop == "L01" && len(bytes.TrimSpace(res.Stderr)) == 0 && res.Panic == "" {
		return viol("no-message", "%q exits %d without a message after %s", label, res.Exit, faultText(c, res))
	}
	return nil
}

func (b *Books) probes(x *Exec, ref, res *procResult) {
	if ref.ok() {
		x.probe("reference command succeeds")
	} else {
		x.probe("reference command fails")
	}
	if len(res.fired) > 0 {
		if res.ok() {
			x.probe("fault injected, command succeeds")
		} else {
			x.probe("fault injected, command fails")
		}
	}
}

func errText(r *procResult) string {
	t := strings.TrimSpace(string(r.Stderr))
	if i := strings.LastIndexByte(t, '\n'); i >= 0 {
		t = t[i+1:]
	}
	if t == "" {
		t = firstLine(r.Panic)
	}
	if len(t) > 200 {
		t = t[:200]
	}
	return t
}

func faultText(c *Cmd, r *procResult) string {
	var s []string
	for _, f := range c.Faults {
		s = append(s, f.String())
	}
	if len(s) == 0 {
		return "nothing happened"
	}
	return fmt.Sprintf("[%s] (%d hit)", strings.Join(s, "; "), len(r.fired))
}

// diffText describes where two outputs part.
func diffText(want, got []byte) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(b []byte) string {
		lo := max(0, i-20)
		hi := min(len(b), i+40)
		if lo > hi {
			lo = hi
		}
		return fmt.Sprintf("%q", b[lo:hi])
	}
	return fmt.Sprintf("%d bytes expected, %d seen, first difference at %d: %s / %s", len(want), len(got), i, cut(want), cut(got))
}

// oddCommands are those that print help or complain.
var oddCommands = [][]string{
	{}, {"help"}, {"--help"}, {"import", "--help"}, {"import", "bank", "--help"}, {"import", "web", "-h"}, {"generate", "--help"},
	{"report", "-h"}, {"register", "--help"}, {"export", "--help"}, {"help", "ops"}, {"help", "import"}, {"help", "format"}, {"completion", "bash"},
	{"download", "--help"}, {"authorise", "--help"}, {"web", "--help"}, {"nonsense"}, {"report", "--nonsense=1"}, {"report", "nomacro"},
	{"import", "--format=nonsense:x=1,y=2,z=3", "-a", "A:B", "-c", "C:D", "--code", "1", "stmt.csv"}, {"import", "--format=csv:header=maybe,comma=1,lazyquotes=x", "-a", "A:B", "-c", "C:D", "--code", "1", "stmt.csv"},
	{"report", "--type=Nonsense"}, {"download"}, {"import"}, {"export", "--type=x"}, {"register"}, {"--ledger=nofile", "ccy"},
	{"import", "--format=json:x=1", "-a", "A:B", "-c", "C:D", "--code", "(", "stmt.json"}, {"generate", "--code", "fail('x')"}, {"generate", "--code", "nothere(1)"},
	{"macros"}, {"help", "macros"}, {"shell", "--type=bash"}, {"shell", "--type=zsh"}, {"shell", "--type=powershell"}, {"shell"},
	{"__complete", "report", ""}, {"__completeNoDesc", "report", ""}, {"__complete", "import", ""}, {"__complete", ""}, {"__complete", "register", ""}, {"__complete", "generate", ""},
	{"__complete", "report", "--"}, {"__complete", "import", "b"}, {"__complete", "report", "m"},
}

func (b *Books) doRepeat(x *Exec, s *Step) *Violation {
	var first *procResult
	if p := s.S["path"]; p != "" {
		good := b.l.files[p]
		if good == "" {
			good = b.l.aux[p]
		}
		editFile(x.w, p, s.S["kind"], uint64(s.n("kseed")))
		defer func() { x.w.fs.put(p, []byte(good)) }()
		x.probe("repeated with an edited file")
	}
	for i, c := range s.Cmds {
		bin := x.w.bin
		if s.n("sched") == 1 {
			bin = x.w.binConc
		}
		r := x.w.runAll([]*Cmd{c}, bin, nil)[0]
		if r.yields > 0 {
			x.probe("goroutines in another order")
		}
		if i == 0 {
			first = r
			b.probes(x, r, r)
			if len(r.Stdout) > 0 {
				x.probe("repeated command with output")
			}
			continue
		}
		if r.Exit != first.Exit {
			return viol("exit-differs", "%q exits %d (%s) and, run again with a different random stream, %d (%s)", strings.Join(c.Args, " "), first.Exit, errText(first), r.Exit, errText(r))
		}
		if !bytes.Equal(r.Stdout, first.Stdout) {
			return viol("output-differs", "%q prints different output when run again: %s", strings.Join(c.Args, " "), diffText(first.Stdout, r.Stdout))
		}
		a, b := []byte(noAddrs(string(first.Stderr))), []byte(noAddrs(string(r.Stderr)))
		if !bytes.Equal(a, b) {
			return viol("message-differs", "%q prints different messages when run again: %s", strings.Join(c.Args, " "), diffText(a, b))
		}
		if i == 1 && len(a) > 0 {
			x.probe("repeated command with messages")
		}
	}
	return nil
}

func (b *Books) doDamage(x *Exec, s *Step) *Violation {
	p := s.S["path"]
	good := b.l.files[p]
	at, n := int(s.n("at")), int(s.n("len"))
	if at >= len(good) {
		return nil // the ledger shrank during minimisation
	}
	if at+n > len(good) {
		n = len(good) - at
	}
	c := s.Cmds[0]
	bad := good[:at] + strings.Repeat("\x00", n) + good[at+n:]
	x.w.fs.put(p, []byte(bad))
	res := x.w.run(c)
	x.w.fs.put(p, []byte(good))
	x.probe("damaged ledger read")
	if n == len(good) {
		x.probe("whole file replaced by NUL")
	}
	if res.Overrun {
		return viol("no-end", "%q does not end although bytes %d-%d of %s are NUL", strings.Join(c.Args, " "), at, at+n-1, p)
	}
	if res.ok() {
		return viol("damage-accepted", "%q exits 0 although bytes %d-%d of %s are NUL", strings.Join(c.Args, " "), at, at+n-1, p)
	}
	return nil
}

func (b *Books) doToday(x *Exec, s *Step, ref *procResult) *Violation {
	w := x.w
	c := s.Cmds[0]
	seen := map[int64]bool{w.skew: true}
	skew := w.skew
	// The moments the machine's clock shows between start and end.
	cands := []int64{skew}
	cur := skew
	fs := append([]Fault(nil), c.Faults...)
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].Nth < fs[j].Nth })
	for _, q := range fs {
		cur += q.Arg
		if !seen[cur] {
			seen[cur] = true
			cands = append(cands, cur)
		}
	}
	res := w.run(c)
	w.skew = skew // the next command starts from the same day
	if len(res.fired) == 0 {
		return nil
	}
	x.probe("clock changed while the command ran")
	for _, k := range cands {
		g := w.fork()
		g.skew = k
		r := g.run(bare(c))
		if r.Exit == res.Exit && bytes.Equal(r.Stdout, res.Stdout) {
			if k != skew {
				x.probe("result of the later day")
			} else {
				x.probe("result of the earlier day")
			}
			return b.oneZone(x, c, k, r)
		}
	}
	// Not one of them: two days were mixed.
	g := w.fork()
	r := g.run(bare(c))
	return viol("mixed-days", "%q: with the clock passing [%s] while it runs, the output is that of no single moment (started at %s): %s", strings.Join(c.Args, " "), faultText(c, res), stamp(w.now+skew), diffText(r.Stdout, res.Stdout))
}

// oneZone compares the result r of a machine whose clock stands still with that
// of machines that know one calendar day only: at noon, in UTC.
func (b *Books) oneZone(x *Exec, c *Cmd, skew int64, r *procResult) *Violation {
	w := x.w
	if w.tz == "" {
		return nil
	}
	x.probe("compared with another time zone")
	utc := w.now + skew
	local := utc + zoneOffset(w.tz, utc)
	var q *procResult
	for _, t := range []int64{local, utc} {
		g := w.fork()
		g.tz = ""
		g.skew = t - t%day + day/2 - w.now
		q = g.run(bare(c))
		if q.Exit == r.Exit && bytes.Equal(q.Stdout, r.Stdout) {
			return nil
		}
	}
	return viol("mixed-days", "%q at %s in a time zone of %+.2f hours: the output is neither that of the local calendar day nor that of the day in UTC: %s", strings.Join(c.Args, " "), stamp(utc), float64(local-utc)/3.6e12, diffText(q.Stdout, r.Stdout))
}

func stamp(ns int64) string {
	c := civil(ns)
	s := (ns % day) / sec
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02dZ", c.y, c.m, c.d, s/3600, s/60%60, s%60)
}

func (b *Books) Finish(x *Exec) *Violation { return nil }

func init() {
	real := []string{"goledger binary: cmd/*, loader, book, script, cobra, toml, starlark, x/text (compiled from /repo)", "Go runtime and standard library (encoding/csv, encoding/json, bufio, os, fmt)"}
	stub := []string{"kernel: files, pipes, clock and random source (simulated system calls)", "terminal: standard output is never a terminal, so no pager"}
	mk := func(id string, quick, thorough int, rule string, assume ...string) {
		register(&Property{ID: id, Conc: id == "O02", Scenarios: []ScenarioDef{{Name: "books", Weight: 1, Cfg: booksCfg, New: newBooks}}, Quick: quick, Thorough: thorough,
			Real: real, Stub: stub, Rule: rule, Assume: assume})
	}
	mk("L01", 900, 14000, "a run is a generated ledger tree and 3-6 commands with faults in what they read; each is compared with its undisturbed run; distinct by the sequence of commands and injected faults", "a read error is reported by the system call; data silently wrong on disk is L02")
	mk("L02", 1500, 20000, "a run is a generated ledger tree and 3-6 commands, each after one region of one ledger file was replaced by NUL bytes; distinct by the sequence of commands")
	mk("O01", 900, 14000, "a run is a generated ledger and 3-6 commands with faults of standard output; each is compared with its undisturbed run; distinct by the sequence of commands and injected faults", "standard output is a pipe or file, not a terminal")
	mk("O02", 500, 8000, "a run is a generated ledger and 3-6 commands, each executed four times with independent random streams and process ids, one in three also with independent schedules of the goroutines at every statement; distinct by the sequence of commands")
	mk("T01", 900, 12000, "a run is a generated ledger close to the end of a day and 3-6 commands during which the clock passes midnight or is stepped; each is compared with runs whose clock stands still, in one of six time zones, and those with runs at noon in UTC; distinct by the sequence of commands")
	mk("I02", 900, 14000, "a run is a generated ledger with statements and scripts and 3-6 imports or generations with faults in what they read; each is compared with its undisturbed run; distinct by the sequence of commands and injected faults")
}
