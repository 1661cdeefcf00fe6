package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
)

// Scenario "imports": a user who imports bank statements that overlap, appends
// the output of every successful import to the ledger and tries again after a
// failure. Each transaction of the bank has an amount of its own, so that what
// the ledger holds can be told without knowing how payees are written.

type impItem struct {
	day   int64
	core  string // the word all spellings of a payee share
	payee string
	ccy   string
	minor int64
	note  string
}

type Imports struct {
	items   []impItem
	present map[int]bool // imported and appended
	main    string
	into    string // the file that grows
	ccys    []string
	fixed   map[string]int // what the ledger held before, per date and amount
	max     int
	done    int
	nasty   int
	rehears *procResult
}

func newImports(prop string) Scenario { return &Imports{present: map[int]bool{}} }

func importsCfg(prop string, r *rng) *Step {
	c := &Step{Op: "cfg", N: map[string]int64{}, S: map[string]string{}}
	c.N["seed"] = int64(r.u64() >> 1)
	c.N["start"] = int64(r.intn(900*24*3600)) * sec
	c.N["optitems"] = []int64{2, 5, 12, 30, 80}[weighted(r, 1, 3, 4, 3, 1)]
	c.N["optdays"] = []int64{1, 2, 6, 30, 300}[weighted(r, 2, 3, 3, 2, 1)]
	c.N["optnasty"] = int64(weighted(r, 1, 1, 2)) // 0: plain payees
	c.N["optccys"] = int64(1 + weighted(r, 3, 1, 1))
	return c
}

var impCores = []string{"Tesco", "Amazon", "Uber", "Mueller", "Cafe", "Rent", "Zoe", "aldi"}

// impPayee spells a payee the way banks do.
func impPayee(r *rng, core string, nasty int) string {
	if nasty == 0 || r.chance(2, 5) {
		return core
	}
	plain := []string{core + " Ltd", core + "  LONDON GB", "The " + core, core + " 1234", core + " & Sons", core + "'s", core + ", Inc.", core + " (2)", core + " (GB)", core + " *MKTPLACE", core + " £5 off", core + " 12/03", "Paid to " + core + ": ref=1"}
	if nasty == 1 {
		return r.pick(plain)
	}
	odd := []string{core + " ", core + "   ", " " + core, core + "; ref 4", core + ";", "*" + core, "* " + core + " EATS", "\"" + core + "\" Ltd", "\"" + core + "\"", core + " \"quoted\"", core + "; \"x\"", "* \"" + core + "\"",
		core + "\tUK", core + "\t", core + "\nCARD 44", core + "\rUK", core + "\u00a0", "\u00a0" + core, core + " Caf\xe9", core + "\xff", core + " Zürich", core + " 日本", "!" + core, "[" + core + "]", "; " + core, "**" + core, core + "\x00", "= " + core, "* * " + core, core + " ;;", core + "\v", core + "\n", "; * \"" + core + "\""}
	if r.chance(2, 3) {
		return r.pick(odd)
	}
	return r.pick(plain)
}

func (s *Imports) Init(x *Exec) {
	c := x.cfg
	r := newRng(uint64(c.n("seed")))
	w := x.k.world(epoch + c.n("start"))
	x.w = w
	days := max(1, c.n("optdays")) // minimisation may ask for none
	s.main = "/work/main.ledger"
	s.nasty = int(c.n("optnasty"))
	all := []string{"£", "EUR", "X1", "$"}
	s.ccys = all[:max(1, c.n("optccys"))]
	first := w.now/day - days
	seq := map[string]int{}
	for i := 0; i < int(c.n("optitems")); i++ {
		core := impCores[r.intn(len(impCores))]
		if r.chance(1, 2) {
			core = impCores[r.intn(2)] // some payees often
		}
		it := impItem{day: first + int64(r.intn(int(days))), core: core, ccy: r.pick(s.ccys)}
		it.payee = impPayee(r, core, s.nasty)
		if r.chance(1, 6) {
			// The same shop, spelt in capitals or without.
			up := r.chance(1, 2)
			fold := func(t string) string {
				b := []byte(t)
				for j, ch := range b {
					if up && ch >= 'a' && ch <= 'z' {
						b[j] = ch - 32
					} else if !up && ch >= 'A' && ch <= 'Z' {
						b[j] = ch + 32
					}
				}
				return string(b)
			}
			it.core, it.payee = fold(it.core), fold(it.payee)
		}
		it.minor = int64(1001 + 37*i)
		if r.chance(1, 12) {
			it.minor += 123456700
		}
		if !r.chance(1, 5) {
			it.minor = -it.minor
		}
		if r.chance(1, 5) {
			it.note = r.pick([]string{"ref 1", "x; y", "two\nlines", "", " lead", "quote \" here", "\r\nend"})
			if s.nasty < 2 {
				it.note = "ref 1"
			}
		}
		seq[core]++
		s.items = append(s.items, it)
	}
	sort.SliceStable(s.items, func(i, j int) bool { return s.items[i].day < s.items[j].day })
	// The user's own ledger: cash, in all currencies, with the smallest coin.
	var sb strings.Builder
	for i, ccy := range s.ccys {
		fmt.Fprintf(&sb, "%s Opening %d\n  Asset:Cash  %s 10.01\n  Equity:Opening\n\n", ledgerDay(first-20), i, quoteCcy(ccy))
	}
	for i, n := 0, r.intn(6); i < n; i++ {
		fmt.Fprintf(&sb, "%s %s\n  Asset:Cash  %s -%d.%02d\n  Expense:%s\n\n", ledgerDay(first-10+int64(r.intn(int(days)+20))), r.pick([]string{"Market", "Corner Shop", "Kiosk"}), quoteCcy(r.pick(s.ccys)), 1+r.intn(50), r.intn(100), r.pick([]string{"Food", "Other"}))
	}
	s.into = s.main
	if r.chance(1, 3) {
		s.into = "/work/bank.ledger"
		sb.WriteString("include bank.ledger\n")
		w.fs.put(s.into, nil)
	}
	w.fs.put(s.main, []byte(sb.String()))
	w.fs.put("/home/u/g.toml", []byte("ledger = \"/work/main.ledger\"\nbaseccy = \"£\"\n[importdefs.bank]\ndescription = \"b\"\nconfigtype = \"csv\"\naccount = \"Asset:Bank\"\ncounteraccount = \"Expense:Unknown\"\nccy = \"£\"\ndedup = true\nreclassify = true\ncode = \"[add(date=r['Date'], desc=r['Payee'], amt=r['Amount'], ccy=r['Ccy'], note=r['Ref']) for r in data]\"\n[importdefs.bank.params]\nheader = \"true\"\n"))
	s.max = 3 + r.intn(5)
	w.maxOps = 200000
}

func quoteCcy(c string) string {
	if c == "X1" {
		return `"X1"`
	}
	return c
}

func ledgerDay(d int64) string {
	c := civil(d * day)
	return fmt.Sprintf("%04d/%02d/%02d", c.y, c.m, c.d)
}

// statement writes the items of a window; kind 0: CSV with header, 1: CSV with
// semicolons and no header, 2: JSON, 3: JSON with minor units.
func (s *Imports) statement(lo, hi int, kind int, shuffle uint64) string {
	r := newRng(shuffle)
	idx := make([]int, 0, hi-lo)
	for i := lo; i < hi; i++ {
		idx = append(idx, i)
	}
	if r.chance(1, 2) {
		// Any order, except that a payee's own transactions stay in order.
		by := map[string][]int{}
		var keys []string
		for _, i := range idx {
			k := s.items[i].core
			if by[k] == nil {
				keys = append(keys, k)
			}
			by[k] = append(by[k], i)
		}
		idx = idx[:0]
		for len(keys) > 0 {
			k := r.intn(len(keys))
			idx = append(idx, by[keys[k]][0])
			if by[keys[k]] = by[keys[k]][1:]; len(by[keys[k]]) == 0 {
				keys = append(keys[:k], keys[k+1:]...)
			}
		}
	}
	df := r.intn(4)
	date := func(d int64) string {
		c := civil(d * day)
		switch df {
		case 0:
			return fmt.Sprintf("%04d-%02d-%02d", c.y, c.m, c.d)
		case 1:
			return fmt.Sprintf("%04d/%d/%d", c.y, c.m, c.d)
		case 2:
			return fmt.Sprintf("%04d%02d%02d", c.y, c.m, c.d)
		}
		return fmt.Sprintf("%02d/%02d/%04d", c.d, c.m, c.y)
	}
	major := func(m int64) string {
		sign := ""
		if m < 0 {
			sign, m = "-", -m
		}
		return fmt.Sprintf("%s%d.%02d", sign, m/100, m%100)
	}
	q := func(t string) string { return `"` + strings.ReplaceAll(t, `"`, `""`) + `"` }
	var sb strings.Builder
	switch kind {
	case 0:
		sb.WriteString("Date,Payee,Amount,Ccy,Ref\n")
		for _, i := range idx {
			it := s.items[i]
			fmt.Fprintf(&sb, "%s,%s,%s,%s,%s\n", date(it.day), q(it.payee), major(it.minor), it.ccy, q(it.note))
		}
	case 1:
		for _, i := range idx {
			it := s.items[i]
			fmt.Fprintf(&sb, "%s;%s;%s;%s;%s\r\n", date(it.day), q(it.payee), major(it.minor), it.ccy, q(it.note))
		}
	default:
		type row struct {
			Date, Payee, Ccy, Note string
			Amt                    float64
			Minor                  int64
		}
		rows := []row{}
		for _, i := range idx {
			it := s.items[i]
			rows = append(rows, row{date(it.day), it.payee, it.ccy, it.note, float64(it.minor) / 100, it.minor})
		}
		b, _ := json.Marshal(map[string]any{"tx": rows})
		return string(b)
	}
	return sb.String()
}

func impArgs(kind int, prn bool) []string {
	pre := ""
	if prn {
		pre = "[print('seen', r['Payee']) for r in data]\n"
	}
	tail := []string{"-a", "Asset:Bank", "-c", "Expense:Unknown", "--code"}
	switch kind {
	case 0:
		return append(append([]string{"--format=csv:header=true"}, tail...), pre+"[add(date=r['Date'], desc=r['Payee'], amt=r['Amount'], ccy=r['Ccy'], note=r['Ref']) for r in data]")
	case 1:
		if prn {
			pre = "[print(r[1]) for r in data]\n"
		}
		return append(append([]string{"--format=csv:delim=;"}, tail...), pre+"[add(date=r[0], desc=r[1], amt=r[2], ccy=r[3], lnote=r[4]) for r in data]")
	case 2:
		if prn {
			pre = "[print(t['Payee'], t) for t in data['tx']]\n"
		}
		return append(append([]string{"--format=json"}, tail...), pre+"[add(date=t['Date'], desc=t['Payee'], amt=t['Amt'], ccy=t['Ccy'], note=t['Note']) for t in data['tx']]")
	}
	return append(append([]string{"--format=json"}, tail...), "[add(date=t['Date'], desc=t['Payee'], amt=int(t['Minor']), denom=100, ccy=t['Ccy']) for t in data['tx']]")
}

func (s *Imports) window(r *rng) (lo, hi int) {
	n := len(s.items)
	lo = r.intn(n)
	for lo > 0 && s.items[lo-1].day == s.items[lo].day {
		lo--
	}
	hi = lo + 1 + r.intn(n-lo)
	return
}

func (s *Imports) Next(x *Exec, r *rng) *Step {
	if s.done >= s.max || len(s.items) == 0 {
		return nil
	}
	s.done++
	st := &Step{Op: "import", N: map[string]int64{}, S: map[string]string{}}
	kind := r.intn(4)
	st.N["kind"] = int64(kind)
	st.N["def"] = 0
	nf := 1 + weighted(r, 5, 2, 1)
	st.N["files"] = int64(nf)
	for i := 0; i < nf; i++ {
		lo, hi := s.window(r)
		st.N[fmt.Sprintf("lo%d", i)], st.N[fmt.Sprintf("hi%d", i)] = int64(lo), int64(hi)
		st.N[fmt.Sprintf("sh%d", i)] = int64(r.u64() >> 1)
	}
	st.N["prn"] = int64(weighted(r, 4, 1))
	st.N["stdin"] = int64(weighted(r, 2, 1))
	st.N["recl"] = int64(weighted(r, 1, 2))
	if kind == 0 && r.chance(1, 3) {
		st.N["def"] = 1
	}
	st.Cmds = []*Cmd{{Seed: r.u64() >> 1}}
	if r.chance(3, 5) {
		g := x.w.fork()
		c := s.build(g, st)
		ref := g.run(bare(c))
		m := faultMix{errs: r.chance(3, 4), soft: r.chance(3, 4), kill: r.chance(1, 3)}
		if m.errs || m.soft || m.kill {
			var ops []opRec
			for _, o := range ref.ops {
				if o.class != "time" && o.path != "/home/u/g.toml" {
					ops = append(ops, o)
				}
			}
			st.Cmds[0].Faults = placeFaults(r, ops, m, []string{"/work/main", "/work/stmt"}, 2)
		}
	}
	return st
}

// build installs the statements of a step and makes its command.
func (s *Imports) build(w *World, st *Step) *Cmd {
	n := len(s.items)
	c := &Cmd{Seed: st.Cmds[0].Seed, Faults: st.Cmds[0].Faults, Env: map[string]string{"GOLEDGER_CONF": "/home/u/g.toml"}}
	kind := int(st.n("kind"))
	c.Args = []string{"import"}
	if st.n("def") == 1 && kind == 0 {
		c.Args = append(c.Args, "bank")
	} else {
		c.Args = append(c.Args, impArgs(kind, st.n("prn") == 1)...)
		if st.n("recl") == 0 {
			c.Args = append(c.Args, "--reclassify=false")
		}
	}
	for i := 0; i < int(st.n("files")); i++ {
		lo, hi := s.bounds(st, i, n)
		text := s.statement(lo, hi, kind, uint64(st.n(fmt.Sprintf("sh%d", i))))
		name := fmt.Sprintf("/work/stmt%d.txt", i)
		if i == 0 && st.n("stdin") == 1 {
			c.Stdin = text
			c.Args = append(c.Args, "-")
			continue
		}
		w.fs.put(name, []byte(text))
		c.Args = append(c.Args, name)
	}
	return c
}

// bounds keeps a window inside a universe that minimisation made smaller.
func (s *Imports) bounds(st *Step, i, n int) (int, int) {
	lo, hi := int(st.n(fmt.Sprintf("lo%d", i))), int(st.n(fmt.Sprintf("hi%d", i)))
	lo, hi = min(lo, n), min(hi, n)
	for lo > 0 && lo < n && s.items[lo-1].day == s.items[lo].day {
		lo--
	}
	return lo, hi
}

func (s *Imports) Do(x *Exec, st *Step) *Violation {
	w := x.w
	c := s.build(w, st)
	return s.doImport(x, st, c)
}

func (s *Imports) doImport(x *Exec, st *Step, c *Cmd) *Violation {
	w := x.w
	res := w.run(c)
	x.sig = true
	x.note("%d/%d:%s:%v", st.n("kind"), st.n("files"), strings.Join(uniq(append([]string(nil), res.fired...)), ","), res.ok())
	hard := res.Killed != ""
	for _, f := range res.fired {
		if f != "EINTR" && f != "short" {
			hard = true
		}
	}
	what := fmt.Sprintf("import of %d statement(s)", st.n("files"))
	if res.Overrun {
		return viol("no-end", "the %s does not end", what)
	}
	if !res.ok() {
		x.probe("import fails")
		if !hard {
			return viol("import-fails", "an undisturbed %s exits %d: %s", what, res.Exit, errText(res))
		}
		return nil
	}
	x.probe("import succeeds")
	if hard {
		x.probe("import succeeds in spite of a fault")
	}
	// cat >> ledger
	old, _ := w.fs.get(s.into)
	w.fs.put(s.into, append(append([]byte(nil), old...), res.Stdout...))
	before := len(s.present)
	for i := 0; i < int(st.n("files")); i++ {
		lo, hi := s.bounds(st, i, len(s.items))
		for k := lo; k < hi; k++ {
			s.present[k] = true
		}
	}
	if len(s.present) == before {
		x.probe("import with nothing new")
	}
	return s.compare(x, what)
}

// compare loads the ledger and compares it with what should be there.
func (s *Imports) compare(x *Exec, what string) *Violation {
	g := x.w.fork()
	res := g.run(&Cmd{Args: []string{"--ledger", s.main, "export", "--type=Json"}, Env: map[string]string{"GOLEDGER_CONF": "/home/u/g.toml"}, Seed: 5})
	if !res.ok() {
		return viol("output-not-a-ledger", "the ledger does not load after appending the output of the %s: %s", what, errText(res))
	}
	var doc []struct {
		Date  string
		Payee string
		Posts []struct {
			Account, Ccy string
			Amount       float64
		}
	}
	if err := json.Unmarshal(res.Stdout, &doc); err != nil {
		hfail("export of the ledger is not JSON: %v", err)
	}
	x.probe("ledger compared")
	type key struct {
		date, ccy string
		minor     int64
	}
	got := map[key]string{}
	for _, t := range doc {
		for _, p := range t.Posts {
			if p.Account != "Asset:Bank" {
				continue
			}
			k := key{t.Date[:10], p.Ccy, int64(math.Round(p.Amount * 100))}
			if math.Abs(p.Amount*100-float64(k.minor)) > 1e-3 {
				return viol("amount-changed", "the ledger has a transaction of %v %s on %s that is in no statement", p.Amount, p.Ccy, t.Date[:10])
			}
			if q, ok := got[k]; ok {
				return viol("imported-twice", "after the %s the ledger has the transaction %s %q %d.%02d %s twice (also as %q)", what, k.date, t.Payee, k.minor/100, abs(k.minor%100), k.ccy, q)
			}
			got[k] = t.Payee
		}
	}
	for i, it := range s.items {
		if !s.present[i] {
			continue
		}
		k := key{strings.ReplaceAll(ledgerDay(it.day), "/", "-"), it.ccy, it.minor}
		p, ok := got[k]
		if !ok {
			return viol("not-imported", "after the %s the ledger lacks the transaction %s %q %d.%02d %s", what, k.date, it.payee, k.minor/100, abs(k.minor%100), k.ccy)
		}
		if !strings.Contains(p, it.core) {
			return viol("payee-changed", "the ledger has the transaction of %s with %q as one with %q", k.date, it.payee, p)
		}
		delete(got, k)
	}
	for k, p := range got {
		return viol("invented", "the ledger has a transaction %s %q %d %s of no imported statement", k.date, p, k.minor, k.ccy)
	}
	return nil
}

func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func (s *Imports) Finish(x *Exec) *Violation {
	if len(s.items) == 0 {
		return nil
	}
	// The complete statement, in every format: afterwards everything is there once.
	for i, kind := range []int64{int64(x.cfg.n("seed")) % 4, 0, 2} {
		st := &Step{Op: "import", N: map[string]int64{"kind": kind, "files": 1, "hi0": int64(len(s.items)), "sh0": int64(i) + 7, "recl": 1}, Cmds: []*Cmd{{Seed: uint64(i) + 11}}}
		if v := s.doImport(x, st, s.build(x.w, st)); v != nil {
			return v
		}
	}
	x.probe("complete statement imported")
	return nil
}

func init() {
	register(&Property{ID: "I01", Scenarios: []ScenarioDef{{Name: "imports", Weight: 1, Cfg: importsCfg, New: newImports}}, Quick: 1000, Thorough: 20000,
		Real:   []string{"goledger binary: cmd/importer, script, book, loader, cmd/reports ledger output, cmd/export JSON (compiled from /repo)", "Go runtime and standard library, starlark"},
		Stub:   []string{"kernel: files, pipes, clock (simulated system calls)", "the user's shell, which appends standard output to the ledger when the command exits 0"},
		Rule:   "a run is a bank history with payees as banks spell them, a ledger, and 3-7 imports of overlapping windows of it in four formats, with read errors, write errors, kills and short reads; failed imports append nothing; then the complete statement is imported three times; distinct by the sequence of imports, outcomes and faults",
		Assume: []string{"a statement that starts on a day has that day from its beginning (a later one may have more of its last day)", "one import at a time", "the ledger shows every currency with the precision of the statement"}})
}
