package main

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"
)

// Scenario "edits": files are saved (replaced by an editor) or appended to
// while a command reads them. What it prints must be what it prints on the
// books before or after each of the edits, never on a mixture of the versions
// of a file.

type Edits struct {
	l    *lworld
	max  int
	done int
}

func editsCfg(prop string, r *rng) *Step {
	c := booksCfg(prop, r)
	c.N["opttx"] = []int64{2, 12, 30, 80, 250}[weighted(r, 1, 2, 4, 4, 3)]
	return c
}

func (e *Edits) Init(x *Exec) {
	r := newRng(uint64(x.cfg.n("seed")))
	w := x.k.world(epoch + x.cfg.n("start"))
	x.w = w
	e.l = buildLedger(r, w.now, int(x.cfg.n("opttx")), nil)
	e.l.install(w)
	e.max = 3 + r.intn(4)
	w.maxOps = 400000
}

// editKinds: append adds a copy of some blocks at the end in one write; the
// others replace the file by renaming a new one over it.
var editKinds = []string{"append", "drop", "dup", "other", "empty", "gone", "grow", "swap", "digits", "decimals"}

var decimalRe = regexp.MustCompile(`[0-9]\.[0-9]+`)

// editFile performs one edit of a file. Blocks are paragraphs of ledgers and lines
// of anything else.
func editFile(w *World, p, kind string, seed uint64) {
	in, err := w.fs.resolve(p, false)
	node := w.fs.lookup(in)
	if err != 0 || node == nil || node.dir {
		return
	}
	r := newRng(seed)
	sep := "\n"
	if strings.HasSuffix(p, ".ledger") {
		sep = "\n\n"
	}
	text := string(node.data)
	blocks := strings.SplitAfter(strings.TrimSuffix(text, "\n")+"\n"+strings.TrimPrefix(sep, "\n"), sep)
	if k := len(blocks); k > 0 && blocks[k-1] == "" {
		blocks = blocks[:k-1]
	}
	some := func() string {
		s := ""
		for i, k := 0, 1+r.intn(3); i < k && len(blocks) > 0; i++ {
			// A file included twice is read twice, and may change in between.
			for _, l := range strings.SplitAfter(blocks[r.intn(len(blocks))], "\n") {
				if !strings.HasPrefix(l, "include") {
					s += l
				}
			}
		}
		return s
	}
	if kind == "append" {
		add := []byte(some())
		if sep == "\n\n" {
			add = append([]byte("\n"), add...)
		}
		w.fs.pwrite(node, int64(len(node.data)), add)
		w.tracef("EDIT %s append %d", p, len(add))
		return
	}
	switch kind {
	case "drop":
		for i, k := 0, 1+r.intn(3); i < k && len(blocks) > 1; i++ {
			j := r.intn(len(blocks))
			blocks = append(append([]string(nil), blocks[:j]...), blocks[j+1:]...)
		}
		text = strings.Join(blocks, "")
	case "dup":
		text = strings.Join(blocks, "") + some()
	case "grow":
		text = strings.Join(blocks, "")
		for i, k := 0, 5+r.intn(60); i < k; i++ {
			text += some()
		}
	case "swap":
		for i, k := 0, 1+r.intn(4); i < k; i++ {
			a, b := r.intn(len(blocks)), r.intn(len(blocks))
			blocks[a], blocks[b] = blocks[b], blocks[a]
		}
		text = strings.Join(blocks, "")
	case "other":
		o := buildLedger(r, w.now, 1+r.intn(60), nil)
		if t, ok := o.files[p]; ok {
			text = t
		} else if t, ok := o.aux[p]; ok {
			text = t
		}
	case "digits": // other amounts, counts or dates
		b := []byte(text)
		for i, k := 0, 1+r.intn(6); i < k && len(b) > 0; i++ {
			at := r.intn(len(b))
			for n := 0; n < 40 && at < len(b); n, at = n+1, at+1 {
				if b[at] >= '0' && b[at] <= '9' {
					b[at] = '0' + byte(r.intn(10))
					break
				}
			}
		}
		text = string(b)
	case "decimals":
		for i, k := 0, r.intn(3); i < k && len(blocks) > 1; i++ {
			j := r.intn(len(blocks))
			blocks = append(append([]string(nil), blocks[:j]...), blocks[j+1:]...)
		}
		text = strings.Join(blocks, "")
		m := decimalRe.FindAllStringIndex(text, -1)
		if len(m) > 0 {
			at := m[r.intn(len(m))][1]
			text = text[:at] + fmt.Sprintf("%04d", r.intn(10000)) + text[at:]
		}
	case "empty":
		text = ""
	case "gone":
		w.fs.remove(in)
		w.tracef("EDIT %s removed", p)
		return
	}
	// A new file takes the name; who has the old one open keeps it.
	delete(w.fs.names, in)
	w.fs.put(in, []byte(text))
	w.tracef("EDIT %s %s %d -> %d", p, kind, len(node.data), len(text))
}

func stepEdit(w *World, s *Step, i int) {
	if p := s.S[fmt.Sprintf("p%d", i)]; p != "" {
		editFile(w, p, s.S[fmt.Sprintf("k%d", i)], uint64(s.n(fmt.Sprintf("s%d", i))))
	}
}

// drawEdit chooses a file that the operations touch, and the moment.
func drawEdit(r *rng, s *Step, ops []opRec, l *lworld, most int) {
	names := map[string]string{}
	for _, m := range []map[string]string{l.files, l.aux} {
		for p := range m {
			names[normPath(p)] = p
		}
	}
	// A statement given twice is read twice, and may change in between.
	named := map[string]int{}
	for _, a := range s.Cmds[0].Args {
		named["/work/"+a]++
	}
	var cand []opRec
	for _, o := range ops {
		if names[o.path] != "" && named[names[o.path]] < 2 {
			cand = append(cand, o)
		}
	}
	if len(cand) == 0 {
		return
	}
	for i, k := 0, min(most, 1+weighted(r, 3, 1)); i < k; i++ {
		o := cand[r.intn(len(cand))]
		p := names[o.path]
		kind := editKinds[weighted(r, 6, 4, 3, 4, 1, 1, 3, 3, 4, 5)]
		s.S[fmt.Sprintf("p%d", i)] = p
		s.S[fmt.Sprintf("k%d", i)] = kind
		s.N[fmt.Sprintf("s%d", i)] = int64(r.u64() >> 1)
		f := Fault{Op: o.class, Path: o.path, Nth: o.nthPath, Act: "edit", Arg: int64(i)}
		if r.chance(1, 3) {
			a := ops[r.intn(len(ops))]
			f = Fault{Op: a.class, Path: a.path, Nth: a.nthPath, Act: "edit", Arg: int64(i)}
		}
		s.Cmds[0].Faults = append(s.Cmds[0].Faults, f)
		// The file may come in several pieces.
		for _, q := range ops {
			if q.class == "read" && q.path == o.path && q.nthPath == 1 && q.n > 1 && r.chance(1, 2) {
				cut := Fault{Op: "read", Path: o.path, Nth: 1, Act: "short", Arg: int64(1 + r.intn(min(q.n-1, 3000)))}
				s.Cmds[0].Faults = append(s.Cmds[0].Faults, cut)
				if r.chance(1, 2) {
					s.Cmds[0].Faults[len(s.Cmds[0].Faults)-2] = Fault{Op: "read", Path: o.path, Nth: 2, Act: "edit", Arg: int64(i)}
				}
			}
		}
	}
}

func (e *Edits) Next(x *Exec, r *rng) *Step {
	if e.done >= e.max {
		return nil
	}
	e.done++
	k := allCmds
	k.imp = 5
	c := e.l.command(r, k)
	if c.Args[0] == "import" && r.chance(1, 3) { // several statements, each once
		c.Args = append(c.Args, strings.Replace(c.Args[len(c.Args)-1], "stmt.", "stmt2.", 1))
	}
	s := &Step{Op: c.Args[0], Cmds: []*Cmd{c}, S: map[string]string{}, N: map[string]int64{}}
	ref := x.w.fork().run(bare(c))
	drawEdit(r, s, ref.ops, e.l, 2)
	return s
}

func (e *Edits) Do(x *Exec, s *Step) *Violation {
	w := x.w
	c := s.Cmds[0]
	x.sig = true
	x.note("%s", strings.Join(c.Args[:min(2, len(c.Args))], " "))
	before := w.fork()
	var order []int
	w.editFn = func(_ *proc, i int64) {
		order = append(order, int(i))
		stepEdit(w, s, int(i))
	}
	res := w.run(c)
	w.editFn = nil
	defer e.l.install(w) // each step starts with the generated files
	label := strings.Join(c.Args, " ")
	if res.Overrun {
		return viol("no-end", "%q does not end while %s", label, faultText(c, res))
	}
	for _, i := range order {
		x.note("%s", s.S[fmt.Sprintf("k%d", i)])
	}
	if len(order) == 0 {
		x.probe("no edit happened")
	}
	// Before or after each edit, those of one file in their order.
	var wants []*procResult
	n := 0
	for set := 0; set < 1<<len(order); set++ {
		ok := true
		for a := range order {
			for b := a + 1; b < len(order); b++ {
				same := s.S[fmt.Sprintf("p%d", order[a])] == s.S[fmt.Sprintf("p%d", order[b])]
				if same && set>>a&1 == 0 && set>>b&1 == 1 {
					ok = false
				}
			}
		}
		if !ok {
			continue
		}
		g := before.fork()
		for a, i := range order {
			if set>>a&1 == 1 {
				stepEdit(g, s, i)
			}
		}
		ref := g.run(bare(c))
		if ref.ok() == res.ok() && (bytes.Equal(ref.Stdout, res.Stdout) || !res.ok()) {
			x.probe([]string{"books as before the edits", "books as after an edit"}[min(set, 1)])
			n++
		}
		wants = append(wants, ref)
	}
	if n > 0 {
		for i := 1; i < len(wants); i++ {
			if !bytes.Equal(wants[i].Stdout, wants[0].Stdout) {
				x.probe("edit changes the output")
				break
			}
		}
		return nil
	}
	last := wants[len(wants)-1]
	return viol("mixed-versions", "%q exits %d (%s) while its files were saved (%s), which is neither the result before nor after; before: exit %d, %s; after: exit %d, %s", label, res.Exit, errText(res), editText(s, order),
		wants[0].Exit, diffText(wants[0].Stdout, res.Stdout), last.Exit, diffText(last.Stdout, res.Stdout))
}

func editText(s *Step, order []int) string {
	var t []string
	for _, i := range order {
		t = append(t, fmt.Sprintf("%s: %s", s.S[fmt.Sprintf("p%d", i)], s.S[fmt.Sprintf("k%d", i)]))
	}
	return strings.Join(t, ", ")
}

func (e *Edits) Finish(x *Exec) *Violation { return nil }

func init() {
	register(&Property{ID: "L03", Scenarios: []ScenarioDef{
		{Name: "edits", Weight: 4, Cfg: editsCfg, New: func(string) Scenario { return &Edits{} }},
		{Name: "webedits", Weight: 1, Cfg: webCfg, New: newWeb},
	}, Conc: true, Quick: 800, Thorough: 12000,
		Real:   []string{"goledger binary: cmd/*, loader, book, script, cobra, toml, starlark, x/text (compiled from /repo)", "Go runtime and standard library"},
		Stub:   []string{"kernel: files, pipes, clock and random source (simulated system calls)", "the editor or import that changes the files meanwhile", "the clients of the web server and (there) the choice of the goroutine that goes on"},
		Rule:   "a run is a generated ledger tree and 3-6 commands during which up to two of the files read are replaced or appended to between two system calls; the output is compared with those on the files before and after; one run in five is a web server whose files are replaced between or during requests; distinct by the sequence of commands and edits",
		Assume: []string{"files are saved by renaming a new file over the old one, or appended to in one write; a file rewritten in place has no version before or after"}})
}
