package main

import (
	"fmt"
	"strings"
)

// ------------------------------------------------------------ generation

var waits = []int64{1 * sec, 5 * sec, 61 * sec, 10 * 60 * sec, hour, 7 * hour, 26 * hour, 6 * day, 19 * day, 25 * day, 80 * day, 95 * day}

func (s *Sync) Next(x *Exec, r *rng) *Step {
	s.steps++
	if s.steps > s.max {
		if s.last != "clean" && s.steps <= s.max+2 {
			s.last = "clean"
			return s.syncStep(x, r, false)
		}
		return nil
	}
	setup := x.cfg.n("setup") == 1 && !s.exists(x.w.fs)
	if s.prop == "S10" && x.cfg.n("setup") == 1 && !setup {
		v, err := s.load(x.w)
		setup = err == nil && v.items["institution"] == ""
	}
	if setup {
		s.last = "setup"
		return s.setupStep(x, r)
	}
	if s.follow > 0 && s.prop != "S10" && s.prop != "S11" {
		s.follow--
		s.last = "clean"
		return s.syncStep(x, r, r.chance(1, 3))
	}
	evw, waitw, faultw, cleanw, dualw := 5, 3, 5, 2, 0
	s.gone = 1
	switch s.prop {
	case "S01":
		evw, waitw, faultw, cleanw, dualw = 3, 1, 6, 1, 2
	case "U01":
		evw, waitw, faultw, cleanw, dualw = 3, 1, 6, 1, 1
	case "S02":
		evw, waitw, faultw, cleanw = 4, 2, 5, 2
		if s.last == "faulty" {
			cleanw = 8
		}
	case "S04", "S05", "S06":
		evw, waitw, faultw, cleanw = 8, 4, 2, 3
	case "S07":
		s.gone = 3
	case "S08":
		evw, waitw, faultw, cleanw = 1, 5, 7, 1
	case "S10", "S11":
		evw, waitw, faultw, cleanw = 5, 2, 5, 2
	case "K01":
		evw, waitw, faultw, cleanw = 1, 4, 6, 1
	}
	if s.prop == "K01" && s.exists(x.w.fs) && r.chance(1, 10) {
		return &Step{Op: "damaged", Cmds: []*Cmd{s.cmd(x, r.u64()>>1)}, S: map[string]string{"how": r.pick([]string{"cut", "drop", "type"})}, N: map[string]int64{"permille": int64(r.intn(1000))}}
	}
	if s.prop == "K01" && r.chance(1, 10) {
		c := s.cmd(x, r.u64()>>1)
		c.Args = [][]string{{"download", s.bank, "--help"}, {"help", "download", s.bank}, {"download", s.bank}, {"download", s.bank, "--nonsense"}, {"download"},
			{"shell", "--type=bash"}, {"shell", "--type=zsh"}, {"shell", "--type=powershell"}, {"__complete", "download", s.bank, "--"},
			{"docs", "--type=markdown", "--dir=/work/doc"}, {"docs", "--type=manpage", "--dir=/work/doc"}, {"docs", "--type=yaml", "--dir=/work/doc"}, {"docs", "--type=rest", "--dir=/work/doc"}}[r.intn(13)]
		return &Step{Op: "help", Cmds: []*Cmd{c}}
	}
	switch weighted(r, evw, waitw, faultw, cleanw, dualw) {
	case 0:
		s.last = "event"
		st := s.eventStep(x, r)
		switch st.Op {
		case "m.hide", "m.drop", "m.acct", "s.close", "s.hide", "s.drop", "s.space", "n.hide", "n.acct", "n.settle":
			s.follow = r.intn(3)
		}
		return st
	case 1:
		s.last = "wait"
		ns := waits[r.intn(len(waits))]
		if s.bank == "monzo" && r.chance(1, 2) {
			// Land near the expiry of the current credential.
			if v, err := s.load(x.w); err == nil {
				if t := x.w.bank.monzo.Access[v.access]; t != nil {
					d := []int64{0, 10 * sec}[r.intn(2)] + int64(r.intn(1500))*1e6 - 200*1e6
					if w := t.Expires - d - x.w.now; w > 0 {
						ns = w
					}
				}
			}
		}
		if s.prop == "S08" && s.bank == "nordigen" && r.chance(1, 2) {
			if v, err := s.load(x.w); err == nil {
				if e := x.w.bank.nordigen.Access[v.access]; e-x.w.now > 3*sec {
					ns = e - x.w.now - int64(r.intn(1500))*1e6
				}
			}
		}
		return &Step{Op: "wait", N: map[string]int64{"ns": ns}}
	case 2:
		s.last = "faulty"
		return s.syncStep(x, r, true)
	case 3:
		hot := s.prop == "S02" && s.last == "faulty"
		s.last = "clean"
		st := s.syncStep(x, r, false)
		if hot {
			st.N["hot"] = 1 // at once
		}
		return st
	}
	s.last = "dual"
	return s.dualStep(x, r)
}

func (s *Sync) eventStep(x *Exec, r *rng) *Step {
	n := map[string]int64{"seed": int64(r.u64() >> 1), "acct": int64(r.intn(3)), "feed": int64(r.intn(3))}
	st := &Step{N: n}
	count := []int64{1, 2, 5, 40, 99, 100, 101, 150, 260}[weighted(r, 6, 5, 5, 3, 1, 1, 1, 1, 1)]
	span := []int64{0, 900 * 1e6, 30 * sec, 59 * sec, 61 * sec, 180 * sec, hour, day, 30 * day}[r.intn(9)]
	from := span
	if r.chance(1, 2) {
		from += []int64{sec, hour, 3 * day, 20 * day, 88 * day, 100 * day}[r.intn(6)]
	}
	switch s.bank {
	case "monzo":
		st.Op = []string{"m.burst", "m.edit", "m.acct", "m.rename", "m.reauth", "m.hide", "m.drop"}[weighted(r, 10, 4, 1, 1, 1, s.gone, s.gone)]
		if r.chance(1, 6) { // in the last hours of the history that is not refused
			span = []int64{hour, 8 * hour, day}[r.intn(3)]
			from = 89*day - 10*60*sec
		}
		if st.Op == "m.burst" {
			n["count"], n["span"], n["from"] = count, span, from
		}
		if st.Op == "m.edit" {
			n["count"] = int64(1 + r.intn(5))
		}
	case "starling":
		st.Op = []string{"s.items", "s.edit", "s.space", "s.close", "s.payee", "s.acct", "s.hide", "s.drop", "s.rename"}[weighted(r, 10, 5, 2, 2, 1, 1, s.gone, s.gone, 2)]
		if st.Op == "s.items" {
			if count > 40 {
				count = 40
			}
			n["count"], n["span"], n["from"] = count, span, span
		}
		if st.Op == "s.edit" {
			n["count"] = int64(1 + r.intn(4))
		}
		if st.Op == "s.items" && r.chance(1, 4) { // appears on the last moment of the 20 days
			n["span"] = []int64{0, 60 * sec, hour, 8 * hour}[r.intn(4)]
			n["count"], n["from"] = 1+count%3, 20*day-3*sec
		} else if r.chance(1, 2) {
			n["lag"] = []int64{hour, 2 * day, 10 * day, 19 * day, 20*day - 2*sec, 40 * day}[r.intn(6)]
		}
	case "nordigen":
		st.Op = []string{"n.book", "n.edit", "n.pend", "n.settle", "n.acct", "n.link", "n.hide"}[weighted(r, 8, 4, 3, 2, 3, 1, 1+s.gone)]
		switch st.Op {
		case "n.book":
			if count > 100 {
				count = 100
			}
			n["count"], n["span"], n["from"] = count, span, from
		case "n.edit", "n.pend":
			n["count"] = int64(1 + r.intn(4))
		}
	}
	return st
}

// mixFor is the fault families of this run, restricted to what the property admits.
func (s *Sync) mixFor(r *rng) faultMix {
	m := s.mix
	m.no = map[string]bool{}
	switch s.prop {
	case "K01":
		m.away, m.errs = true, m.errs || r.chance(1, 2)
		m.http = m.http || r.chance(1, 2)
	case "S02":
		m.kill, m.power = r.chance(1, 3), false
		m.errs = m.errs || !m.http
	case "S10":
		m.kill, m.power, m.errs = false, false, false
		m.http, m.soft, m.jump = true, true, true
	case "S11":
		m.kill, m.power, m.errs, m.http, m.soft, m.jump = false, false, false, true, true, false
		for _, a := range []string{"refused", "timeout", "dns", "reset-before", "reset-after", "eof-after"} {
			m.no[a] = true
		}
	}
	return m
}

func (s *Sync) focus() []string {
	base := s.path[:strings.LastIndexByte(s.path, '.')]
	return []string{normPath(strings.TrimSuffix(base, ".json"))}
}

func (s *Sync) syncStep(x *Exec, r *rng, faulty bool) *Step {
	c := s.cmd(x, r.u64()>>1)
	if s.bank == "starling" && r.chance(1, 8) {
		c.Args = append(c.Args, "--alldata")
	}
	st := &Step{Op: "sync", Cmds: []*Cmd{c}, N: map[string]int64{}}
	if !faulty {
		return st
	}
	m := s.mixFor(r)
	if m.errs && r.chance(1, 5) {
		size := 400
		if b, ok := x.w.fs.get(s.path); ok {
			size = len(b)
		}
		st.N["free"] = int64(r.intn(size*2 + 300))
		return st
	}
	f := x.w.fork()
	res := f.run(c)
	switch s.prop {
	case "S04", "S05", "S06":
		if res.ok() && r.chance(1, 2) {
			s.scout(x, r, c, f, res, faultMix{http: true, no: map[string]bool{}})
			return st
		}
	case "S01", "S02", "S03", "S07", "S08":
		if res.ok() && r.chance(1, 6) {
			s.scout(x, r, c, f, res, faultMix{errs: true, http: r.chance(1, 4), no: map[string]bool{}})
			return st
		}
	}
	c.Faults = placeFaults(r, res.ops, m, s.focus(), 3)
	return st
}

// scout tries single failures of the command's operations on copies of the world
// and picks the first after which the command still claims success but leaves
// another state than the undisturbed run; failing that, any of them.
func (s *Sync) scout(x *Exec, r *rng, c *Cmd, done *World, res *procResult, m faultMix) {
	state := normPath(s.path)
	var ops, load []opRec
	for _, o := range res.ops {
		if len(actsFor(o, m)) == 0 || m.errs && !m.http && o.class == "http" {
			continue
		}
		ops = append(ops, o)
		if o.path == state && (o.class == "open" || o.class == "read" && o.nthPath == 1) {
			load = append(load, o)
		}
	}
	if len(ops) == 0 {
		return
	}
	want, err := s.load(done)
	if err != nil {
		return
	}
	for i := 0; i < 8; i++ {
		o := ops[r.intn(len(ops))]
		if i < 2 && len(load) > 0 {
			o = load[r.intn(len(load))]
		}
		acts := actsFor(o, m)
		c.Faults = []Fault{drawFault(r, o, acts[r.intn(len(acts))])}
		f := x.w.fork()
		if res := f.run(c); !res.ok() || len(res.fired) == 0 {
			continue
		}
		if got, err := s.load(f); err != nil || !sameItems(got, want) {
			x.probe("scouted")
			return
		}
	}
}

func (s *Sync) dualStep(x *Exec, r *rng) *Step {
	a, b := s.cmd(x, r.u64()>>1), s.cmd(x, r.u64()>>1)
	st := &Step{Op: "sync", Cmds: []*Cmd{a, b}, Sched: r.u64() >> 1, N: map[string]int64{}}
	if r.chance(1, 2) {
		f := x.w.fork()
		res := f.run(a)
		a.Faults = placeFaults(r, res.ops, s.mixFor(r), s.focus(), 1)
	}
	return st
}

func (s *Sync) setupStep(x *Exec, r *rng) *Step {
	c := s.cmd(x, r.u64()>>1)
	c.Stdin = r.pick([]string{"GB\n1\n", "GB\n0\n", "FR\n2\n", "GB\n1\n", "GB\n2\n", "GB\n7\n", "GB\n-1\n", "GB\n", "", "GB\nx\n"})
	st := &Step{Op: "setup", Cmds: []*Cmd{c}, N: map[string]int64{}}
	if r.chance(1, 2) {
		f := x.w.fork()
		res := f.run(c)
		c.Faults = placeFaults(r, res.ops, s.mixFor(r), s.focus(), 2)
	}
	return st
}

// ------------------------------------------------------------ execution

func (s *Sync) Do(x *Exec, st *Step) *Violation {
	w := x.w
	if st.n("hot") == 0 {
		w.fs.syncAll() // the kernel wrote back between two runs of the program
	}
	switch st.Op {
	case "wait":
		w.now += st.n("ns")
		x.sig = true
		return nil
	case "help":
		x.sig = true
		x.note("%s", strings.Join(st.Cmds[0].Args, " "))
		w.fs.mkdirAll("/work/doc")
		r := w.run(st.Cmds[0])
		if v := printed(w, []*procResult{r}); v != nil {
			return v
		}
		for _, p := range sortedKeys(w.fs.names) {
			if strings.HasPrefix(p, "/work/doc/") {
				x.probe("documentation page")
				b, _ := w.fs.get(p)
				if v := printed(w, []*procResult{{Stdout: b}}); v != nil {
					return v
				}
			}
		}
		return nil
	case "damaged":
		return s.damaged(x, st)
	case "sync", "setup":
		v := s.sync(x, st)
		w.now += sec
		return v
	}
	s.event(x, st)
	x.sig = true
	return nil
}

func (s *Sync) Finish(x *Exec) *Violation { return nil }

// answered are those that change what a run does without failing it.
var answered = map[string]bool{"short": true, "EINTR": true, "chunks": true, "delay": true, "jump": true, "moved": true, "s403": true}

var benign = map[string]bool{"short": true, "EINTR": true, "chunks": true, "delay": true, "jump": true}

func (c *Cmd) without(drop func(Fault) bool) *Cmd {
	n := *c
	n.Faults = nil
	for _, f := range c.Faults {
		if !drop(f) {
			n.Faults = append(n.Faults, f)
		}
	}
	return &n
}

// rehearse runs the command on a copy of the world with only benign events.
func (s *Sync) rehearse(w *World, c *Cmd) (*view, *procResult) {
	return s.rehearseWith(w, c, benign)
}

func (s *Sync) rehearseWith(w *World, c *Cmd, keep map[string]bool) (*view, *procResult) {
	f := w.fork()
	res := f.run(c.without(func(f Fault) bool { return !keep[f.Act] }))
	v, err := s.load(f)
	if err != nil {
		return nil, res
	}
	return v, res
}

func (s *Sync) sync(x *Exec, st *Step) *Violation {
	w := x.w
	existed := s.exists(w.fs)
	before, err := s.load(w)
	if err != nil {
		// Only possible after a violation that another property's check reports.
		x.probe("unreadable-before")
		before = &view{items: map[string]string{}}
	}
	free := st.n("free")
	_, full := st.N["free"]
	setFree := func(w *World) {
		if full {
			w.fs.free = free
		}
	}
	var ctl *World
	var want, limited *view
	wantOK := false
	if s.prop == "S03" || s.prop == "S01" {
		ctl = w.fork()
		var res *procResult
		want, res = s.rehearse(w, st.Cmds[0])
		wantOK = want != nil && res.ok()
		for _, f := range st.Cmds[0].Faults {
			if f.Act == "s403" { // which is answered by asking for less
				limited, res = s.rehearseWith(w, st.Cmds[0], answered)
				if !res.ok() {
					limited = nil
				}
				break
			}
		}
	}
	complete := func(g *view) bool {
		return wantOK && sameItems(g, want) || limited != nil && sameItems(g, limited)
	}
	var v *Violation
	setV := func(n *Violation) {
		if v == nil && n != nil {
			v = n
		}
	}
	m0rev, m0exp := w.bank.monzo.RevokedUse, w.bank.monzo.ExpiredUse+w.bank.nordigen.ExpiredUse
	nmut := 0
	var u *untouched
	switch s.prop {
	case "U01":
		u = watchFiles(w, s.path, existed)
	case "K01":
		w.httpHook = func(p *proc, method, url string, hdr map[string]string, body string) {
			setV(sentAway(w, url, hdr, body))
			if bankOf(url) == "" {
				x.probe("redirection followed")
			}
		}
	case "S01":
		known := func(g *view) bool {
			return sameItems(g, before) || complete(g)
		}
		lax := len(st.Cmds) > 1 // two runs: complete is enough, contents may combine
		check := func(fs *vfs, when string) {
			if !s.exists(fs) {
				if existed {
					setV(viol("vanished", "%s: the state file that existed before the command is gone", when))
				}
				return
			}
			g, err := s.loadFS(fs)
			if err != nil {
				setV(viol("torn", "%s: the state file is not a complete document: %v", when, err))
			} else if !lax && !known(g) {
				setV(viol("mixed", "%s: the state file is neither the previous nor the complete new version: %s", when, diffItems(g, before)))
			}
		}
		w.watch[s.path] = func(p *proc, path string) {
			check(w.fs, "while the command runs")
			x.probe("state-file-instant")
		}
		w.mutHook = func(p *proc, class string) {
			nmut++
			for k := uint64(0); k < 2; k++ {
				c := w.fs.clone()
				c.powerLoss(newRng(mix(st.Cmds[0].Seed, uint64(nmut)*2+k)))
				check(c, fmt.Sprintf("after a power loss following %s", class))
				x.probe("power-loss-checked")
			}
		}
	case "S08":
		w.httpHook = func(p *proc, method, url string, hdr map[string]string, body string) {
			t := w.bank.monzo.Access[bearer(hdr)]
			if s.bank != "monzo" || t == nil || t.Parent == "" || t.Used {
				return
			}
			x.probe("first-use-of-renewed-credential")
			for k := uint64(0); k < 3; k++ {
				c := w.fs.clone()
				c.powerLoss(newRng(mix(st.Cmds[0].Seed, 77+k)))
				g, err := s.loadFS(c)
				if err != nil {
					setV(viol("renewal-not-durable", "a renewed credential is used while a power loss would leave an unreadable state file: %v", err))
				} else if g.access != bearer(hdr) {
					setV(viol("renewal-not-durable", "the renewed credential %s is used before it is stored durably (a power loss would leave %q)", bearer(hdr), g.access))
				}
			}
		}
	}
	t0 := w.now
	reqs0 := len(w.bank.nordigen.Reqs)
	setFree(w)
	var choose func(n int) int
	if len(st.Cmds) > 1 {
		sr := newRng(st.Sched)
		runLen := 0
		cur := 0
		choose = func(n int) int {
			if runLen == 0 || cur >= n {
				cur = sr.intn(n)
				runLen = 1 + sr.intn(8)
			}
			runLen--
			return cur
		}
		x.sig = true
	}
	rs := w.runAll(st.Cmds, w.bin, choose)
	w.fs.free = -1
	delete(w.watch, s.path)
	w.mutHook, w.httpHook = nil, nil
	for _, r := range rs {
		out := "fail"
		if r.ok() {
			out = "ok"
		} else if r.Killed != "" {
			out = r.Killed
		}
		x.note("%s:%s:%s", s.bank, strings.Join(uniq(append([]string(nil), r.fired...)), ","), out)
		if len(r.fired) > 0 || full {
			x.sig = true
		}
		x.probe("run-" + out)
	}
	if v != nil {
		return v
	}
	if u != nil {
		return u.end(w, rs)
	}
	r := rs[0]
	after, aerr := s.load(w)

	switch s.prop {
	case "K01":
		if v := printed(w, rs); v != nil {
			return v
		}
		if in := w.fs.lookup(s.path); in != nil && !existed {
			x.probe("state file created")
			if in.mode&0077 != 0 {
				return viol("state-readable", "the new state file has permissions %o: others can read the credentials in it", in.mode)
			}
		}
	case "S01":
		if !s.exists(w.fs) && existed {
			return viol("vanished", "after the command the state file is gone")
		}
		if aerr != nil {
			return viol("torn", "after the command (%s) the state file is not a complete document: %v", outcome(r), aerr)
		}
		if len(rs) == 1 && !sameItems(after, before) && !complete(after) {
			if s.exists(w.fs) {
				return viol("mixed", "after the command (%s) the state file is neither the previous nor the complete new version: %s", outcome(r), diffItems(after, before))
			}
		}

	case "S02":
		if !r.ok() {
			return nil
		}
		got := s.delivered(r.reqs)
		if s.bank == "monzo" {
			got.access = lastToken(got.access, before.access)
		}
		if aerr != nil {
			return viol("unreadable-after-success", "the command succeeded but its state file cannot be read: %v", aerr)
		}
		if d := contains(after, got); d != "" {
			return viol("success-not-stored", "the command succeeded, but what the bank delivered is not in the state file: %s", d)
		}
		x.probe("success-checked")
		for k := uint64(0); k < 6; k++ {
			c := w.fs.clone()
			c.powerLoss(newRng(mix(st.Cmds[0].Seed, 991+k)))
			g, err := s.loadFS(c)
			if err != nil {
				return viol("success-not-durable", "the command succeeded, but a power loss right afterwards leaves an unreadable state file: %v", err)
			}
			if !s.exists(c) {
				return viol("success-not-durable", "the command succeeded, but a power loss right afterwards leaves no state file")
			}
			if d := contains(g, got); d != "" {
				return viol("success-not-durable", "the command succeeded, but a power loss right afterwards loses data: %s", d)
			}
		}

	case "S03":
		if r.ok() {
			return nil
		}
		if aerr != nil {
			return viol("failed-run-damaged", "a run that did not succeed (%s) left an unreadable state file: %v", outcome(r), aerr)
		}
		if !sameItems(after, before) && !complete(after) {
			return viol("failed-run-mixture", "a run that did not succeed (%s) left neither the previous nor the complete new history: %s", outcome(r), diffItems(after, before))
		}
		again := &Cmd{Args: st.Cmds[0].Args, Stdin: st.Cmds[0].Stdin, Env: st.Cmds[0].Env, Seed: st.Cmds[0].Seed ^ 0x55}
		real := w.fork()
		real.fs.syncAll()
		real.now += 2 * sec
		ctl.now, ctl.skew = real.now, real.skew
		ctl.bank.lat, real.bank.lat = newRng(9), newRng(9)
		cr := ctl.run(again)
		rr := real.run(again)
		x.probe("retry-compared")
		if cr.ok() && !rr.ok() {
			return viol("retry-fails", "after a run that did not succeed (%s), an undisturbed run fails (%s) although it succeeds where the failed run never happened", outcome(r), outcome(rr))
		}
		if !cr.ok() {
			x.probe("control-failed")
			return nil
		}
		cv, err1 := s.load(ctl)
		rv, err2 := s.load(real)
		if err1 != nil || err2 != nil {
			return viol("retry-unreadable", "after an undisturbed retry the state file is unreadable: %v", err2)
		}
		for _, k := range sortedKeys(cv.items) {
			if rv.items[k] != cv.items[k] && k != "requisition" {
				return viol("retry-diverges", "after a run that did not succeed (%s) and an undisturbed one, %s is %s; without the failed run it is %s", outcome(r), k, clip(rv.items[k]), clip(cv.items[k]))
			}
		}
		for _, k := range sortedKeys(rv.items) {
			if _, ok := cv.items[k]; !ok && !(want != nil && want.items[k] == rv.items[k]) && !(limited != nil && limited.items[k] == rv.items[k]) {
				return viol("retry-diverges", "after a run that did not succeed (%s) and an undisturbed one, %s is stored; without the failed run it is not", outcome(r), k)
			}
		}

	case "S04", "S05", "S06":
		if st.Op == "setup" {
			return s.setupOracle(x, st, r, after, aerr, reqs0)
		}
		if !r.ok() {
			if len(r.fired) == 0 && !full && s.linkedOK(before) {
				return viol("undisturbed-run-fails", "an undisturbed run fails: %s", outcome(r))
			}
			return nil
		}
		if aerr != nil {
			return viol("unreadable-after-success", "the command succeeded but its state file cannot be read: %v", aerr)
		}
		x.probe("complete-checked")
		return s.complete(x, st, before, after, t0, r)

	case "S07":
		if aerr != nil {
			return viol("history-unreadable", "after a run (%s) the stored history is unreadable: %v", outcome(r), aerr)
		}
		for _, k := range sortedKeys(s.stored) {
			if _, ok := after.items[k]; !ok {
				return viol("history-lost", "after a run (%s) %s, stored earlier, is gone", outcome(r), k)
			}
		}
		for _, k := range sortedKeys(after.items) {
			if isTxn(k) && !s.versions[k][after.items[k]] {
				return viol("history-altered", "after a run (%s) %s is stored as %s, which the bank never sent", outcome(r), k, clip(after.items[k]))
			}
			s.stored[k] = true
		}

	case "S08":
		if n := w.bank.monzo.RevokedUse; n > m0rev {
			return viol("revoked-credential-used", "the command presented a credential that its own renewal had revoked")
		}
		if n := w.bank.monzo.ExpiredUse + w.bank.nordigen.ExpiredUse; n > m0exp {
			return viol("expired-credential-used", "the command presented an expired credential instead of renewing it")
		}
		f := w.fork()
		f.fs.syncAll()
		f.now += 2 * sec
		again := &Cmd{Args: st.Cmds[0].Args, Env: st.Cmds[0].Env, Seed: st.Cmds[0].Seed ^ 0x55}
		rr := f.run(again)
		x.probe("next-run-checked")
		if !rr.ok() {
			return viol("locked-out", "after a run (%s), an undisturbed run fails: %s", outcome(r), outcome(rr))
		}
		if f.bank.monzo.RevokedUse > m0rev {
			return viol("revoked-credential-used", "after a run (%s), the next presents a revoked credential", outcome(r))
		}

	case "S10":
		var prev *httpRec
		renewed := false
		for i := range r.reqs {
			q := &r.reqs[i]
			if i > 0 && r.reqs[i-1].status == 307 && r.reqs[i-1].url == q.url {
				continue // the bank's redirection is part of the request
			}
			if q.token {
				prev, renewed = nil, true
				continue
			}
			if renewed { // this one waited for the renewal before it
				renewed = false
				continue
			}
			if prev != nil {
				x.probe("gap-measured")
				if d := q.at - prev.at; d < 100*1e6 {
					return viol("too-fast", "two consecutive requests to the bank (%s, %s) start %.3f ms apart", urlKey(prev.url), urlKey(q.url), float64(d)/1e6)
				}
			}
			prev = q
		}

	case "S11":
		items := 0
		for range s.truth(w) {
			items++
		}
		accts := len(w.bank.monzo.Accts) + len(w.bank.starling.Accts)*8 + len(w.bank.nordigen.Accts)*4
		bound := 2*items + 4*accts + 20
		if r.Overrun {
			return viol("endless", "the command made more than %d operations (%d requests to a bank that lists %d items) and does not end", w.maxOps, len(r.reqs), items)
		}
		if len(r.reqs) > bound {
			return viol("endless", "the command made %d requests to a bank that lists %d items", len(r.reqs), items)
		}
		lim := int64(len(r.reqs))*(100*1e6+w.bank.latMax+4*sec) + 30*sec
		if r.clock > lim {
			return viol("slow", "the command ran for %d s of simulated time over %d answered requests", r.clock/sec, len(r.reqs))
		}
		x.probe("bound-checked")
	}
	return nil
}

func lastToken(delivered, before string) string {
	if delivered != "" {
		return delivered
	}
	return before
}

func isTxn(k string) bool { return strings.HasPrefix(k, "txn/") || strings.HasPrefix(k, "feed/") }

func outcome(r *procResult) string {
	if r.Killed != "" {
		return r.Killed
	}
	o := fmt.Sprintf("exit %d", r.Exit)
	if e := lastLine(string(r.Stderr)); e != "" {
		o += " " + clip(e)
	}
	if e := firstLine(r.Panic); e != "" {
		o += " " + clip(e)
	}
	return o
}

func lastLine(s string) string {
	s = strings.TrimRight(s, "\n")
	return s[strings.LastIndexByte(s, '\n')+1:]
}

// linkedOK: the first-time dialogue has been held, so a run needs no terminal.
func (s *Sync) linkedOK(before *view) bool {
	return s.bank != "nordigen" || before != nil && before.items["requisition"] != ""
}

// refusedAll: the bank refused the complete history of the account.
func refusedAll(r *procResult, acct string) bool {
	for _, q := range r.reqs {
		if u := mustURL(q.url); q.status == 403 && u.Path == "/transactions" && u.Query().Get("account_id") == acct && u.Query().Get("since") == "" {
			return true
		}
	}
	return false
}

func (s *Sync) setupOracle(x *Exec, st *Step, r *procResult, after *view, aerr error, reqs0 int) *Violation {
	w := x.w
	if aerr != nil {
		return viol("unreadable-after-setup", "after the institution dialogue (%s) the state file is unreadable: %v", outcome(r), aerr)
	}
	var k int
	f := strings.Fields(st.Cmds[0].Stdin)
	valid := false
	if len(f) == 2 {
		if _, err := fmt.Sscanf(f[1], "%d", &k); err == nil && k >= 0 && k < 3 {
			valid = true
		}
	}
	if !r.ok() {
		if a, b := after.items["institution"] != "", after.items["requisition"] != ""; a != b {
			return viol("setup-mixed", "the institution dialogue did not succeed (%s); the state file has an institution: %v, a requisition: %v", outcome(r), a, b)
		}
		if valid && len(r.fired) == 0 {
			return viol("setup-fails", "an undisturbed institution dialogue fails: %s", outcome(r))
		}
		return nil
	}
	x.probe("setup-succeeded")
	if !valid {
		return viol("setup-invalid", "the institution dialogue succeeds although no valid institution was chosen (%q)", st.Cmds[0].Stdin)
	}
	inst, _ := canonB(after.items["institution"])
	if id := str(obj(inst)["id"]); id != fmt.Sprintf("BANK_%d", k) {
		return viol("setup-not-stored", "the institution dialogue succeeded for BANK_%d but the state file has institution %q", k, id)
	}
	req, _ := canonB(after.items["requisition"])
	id := str(obj(req)["id"])
	if w.bank.nordigen.Reqs[id] != fmt.Sprintf("BANK_%d", k) {
		return viol("setup-not-stored", "the stored requisition %q is not the one created for BANK_%d", id, k)
	}
	return nil
}

// complete compares the state file with the bank's books after a successful run.
func (s *Sync) complete(x *Exec, st *Step, before, after *view, t0 int64, r *procResult) *Violation {
	w := x.w
	truth := s.truth(w)
	need := func(k string) *Violation {
		g, ok := after.items[k]
		if !ok {
			return viol("incomplete", "after a successful run %s, which the bank lists, is not stored", k)
		}
		if g != truth[k] {
			return viol("stale", "after a successful run %s is stored as %s; the bank lists %s", k, clip(g), clip(truth[k]))
		}
		return nil
	}
	for _, k := range sortedKeys(before.items) {
		if _, ok := after.items[k]; !ok {
			return viol("dropped", "after a successful run %s, stored before, is gone", k)
		}
	}
	for _, k := range sortedKeys(after.items) {
		if isTxn(k) && !s.versions[k][after.items[k]] {
			return viol("invented", "after a successful run %s is stored as %s, which the bank never sent", k, clip(after.items[k]))
		}
	}
	switch s.bank {
	case "monzo":
		m := w.bank.monzo
		for _, a := range m.Accts {
			if a.Hidden {
				continue
			}
			if v := need("acct/" + a.ID); v != nil {
				return v
			}
			for _, t := range a.Txns {
				if t.Gone {
					continue
				}
				refused := m.HistoryLimited && w.now-m.Authorised > 290*sec || refusedAll(r, a.ID)
				if refused {
					if t.Created < w.now-89*day+2*sec {
						x.probe("older-than-89-days")
						continue
					}
					x.probe("limited-history")
				}
				if v := need("txn/" + t.ID); v != nil {
					return v
				}
			}
		}
	case "starling":
		all := false
		for _, a := range st.Cmds[0].Args {
			all = all || a == "--alldata"
		}
		b := w.bank.starling
		for _, a := range b.Accts {
			if a.Hidden {
				continue
			}
			acct, _ := canonB(js(a.json()))
			if after.items["acct/"+a.ID] != canon(acct) {
				return viol("incomplete", "after a successful run account %s is stored as %s", a.ID, clip(after.items["acct/"+a.ID]))
			}
			ident, _ := canonB(js(a.idents()))
			if got := after.items["ident/"+a.ID]; got != canon(ident) {
				return viol("incomplete", "after a successful run the identifiers of account %s are stored as %s; the bank lists %s", a.ID, clip(got), clip(canon(ident)))
			}
			_, spb, _, _ := b.serve(w.now, "GET", mustURL("https://api.starlingbank.com/api/v2/account/"+a.ID+"/spaces"), map[string]string{"Authorization": "Bearer " + b.Token})
			sp, _ := canonB(spb)
			if after.items["spaces/"+a.ID] != canonSpaces(obj(sp)) {
				return viol("stale", "after a successful run the spaces of account %s are stored as %s; the bank lists %s", a.ID, clip(after.items["spaces/"+a.ID]), clip(spb))
			}
			for _, f := range a.Feeds {
				if f.Closed {
					continue
				}
				for _, i := range f.Items {
					if i.Visible > t0 || i.Gone {
						continue
					}
					if i.Visible-i.Updated > 20*day-2*sec && !all {
						x.probe("later-than-20-days")
						continue
					}
					if i.Visible > i.Updated {
						x.probe("late-visible")
					}
					if v := need("feed/" + a.ID + "/" + f.Cat + "/" + i.ID); v != nil {
						return v
					}
				}
			}
		}
		want, _ := canonB(js(payeeList(b)))
		if after.items["payees"] != canon(want) {
			return viol("stale", "after a successful run the payees are stored as %s; the bank lists %s", clip(after.items["payees"]), clip(canon(want)))
		}
	case "nordigen":
		b := w.bank.nordigen
		for k := range after.items {
			if strings.Contains(k, "/pend-") {
				booked := false
				_, booked = truth[k]
				if !booked {
					return viol("pending-stored", "after a successful run the pending transaction %s is stored", k)
				}
			}
		}
		if !b.Linked {
			return nil
		}
		for _, a := range b.Accts {
			if a.Hidden {
				continue
			}
			if after.items["basic/"+a.ID] == "" || after.items["details/"+a.ID] == "" {
				return viol("incomplete", "after a successful run the data of account %s is not stored", a.ID)
			}
			for _, t := range a.Booked {
				if t.Booked < w.now-b.Window || t.Booked > t0 {
					continue
				}
				if v := need("txn/" + a.ID + "/" + t.ID); v != nil {
					return v
				}
			}
		}
		// Transactions the bank no longer lists keep the content last delivered.
		for k, c := range before.items {
			if isTxn(k) && after.items[k] != c {
				if truth[k] != after.items[k] {
					return viol("altered", "after a successful run %s changed to %s, which the bank does not list", k, clip(after.items[k]))
				}
			}
		}
	}
	return nil
}

func payeeList(b *Starling) []any {
	l := []any{}
	for _, p := range b.Payees {
		l = append(l, map[string]any{"payeeUid": p, "payeeName": "P " + p})
	}
	return l
}
