package main

// The variant of the system under test for properties about concurrency inside
// one process: every statement of the packages below is preceded by a
// scheduling point, at which the simulator chooses which goroutine goes on.
// The web command, which the repository has but does not link, is linked in.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type concState struct {
	rand     *rng
	last     int64 // the goroutine that went on last
	switches int
	limit    int // after so many, no unforced switch (-1: no limit)
	points   int
}

// execConc decides a scheduling point: r.s1 lists the identifiers of the
// goroutines waiting at one.
func (p *proc) execConc(r *request) (int64, []byte) {
	if r.op != 1100 {
		hfail("unhandled request %d", r.op)
	}
	if p.conc == nil {
		p.conc = &concState{rand: newRng(p.cmd.Seed ^ 0xc0ffee), last: -1, limit: -1}
		if l := p.cmd.Switches; l != 0 {
			p.conc.limit = l - 1
		}
	}
	c := p.conc
	n := int(r.a[0])
	k := -1
	c.points++
	if c.limit >= 0 && c.switches >= c.limit {
		k = 0
		for i := 0; i < n; i++ {
			if int64(r.s1[i]) == c.last {
				k = i
			}
		}
	} else {
		k = c.rand.intn(n)
	}
	if id := int64(r.s1[k]); id != c.last {
		if c.last >= 0 {
			c.switches++
		}
		c.last = id
	}
	p.res.yields++
	p.w.tracef("p%d schedule %v: %d", p.id, r.s1, r.s1[k])
	return int64(k), nil
}

const simyieldSrc = `package simyield

import (
	"os"
	"strconv"
	"sync"
	"syscall"
)

type waiter struct {
	id   byte
	ch   chan struct{}
}

var (
	on      bool
	started bool
	den     uint64 = 1
	state   uint64
	ready   []waiter
	locked  []waiter
	wake    = make(chan struct{}, 1)
	ids     []uint64
	armed   uint64 // the goroutine to be interrupted in its next write to a map
)

// Init is called before main.
func Init() {
	if !syscall.SimOn {
		return
	}
	on = true
	if n, err := strconv.ParseUint(os.Getenv("GOSIM_YIELD"), 10, 64); err == nil && n > 0 {
		den = n
	}
	state, _ = strconv.ParseUint(os.Getenv("GOSIM_RAND"), 10, 64)
	os.SimMapWrite(func() {
		if armed != 0 && armed == syscall.SimGoid() && syscall.SimMayWait() {
			armed = 0
			wait(&ready)
		}
	})
	sync.SimYield = func() { wait(&locked) }
	sync.SimUnlock = func() {
		if len(locked) > 0 {
			ready = append(ready, locked...)
			locked = locked[:0]
			kick()
		}
	}
}

func rnd() uint64 {
	state += 0x9e3779b97f4a7c15
	z := state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func kick() {
	select {
	case wake <- struct{}{}:
	default:
	}
}

func wait(q *[]waiter) {
	if !started {
		started = true
		wake = make(chan struct{}, 1) // belongs to the bubble
		go scheduler()
	}
	g := syscall.SimGoid()
	id := byte(0)
	for int(id) < len(ids) && ids[id] != g {
		id++
	}
	if int(id) == len(ids) {
		ids = append(ids, g)
	}
	w := waiter{id, make(chan struct{})}
	*q = append(*q, w)
	kick()
	<-w.ch
}

// Y is a scheduling point.
func Y() {
	if !on || (den > 1 && rnd()%den != 0) {
		return
	}
	wait(&ready)
}

// Z is a scheduling point in code that runs for every character or posting.
func Z() {
	if on && rnd()%(den*64) == 0 {
		wait(&ready)
	}
}

// M precedes a statement that writes to a map (or a slice): it may be
// interrupted in the middle of that.
func M() {
	if on && rnd()%den == 0 {
		armed = syscall.SimGoid()
	}
}

func scheduler() {
	for {
		os.SimQuiesce()
		if len(ready) == 0 {
			<-wake
			continue
		}
		k := 0
		if len(ready) > 1 {
			b := make([]byte, len(ready))
			for i, w := range ready {
				b[i] = w.id
			}
			r, _ := syscall.SimCall(1100, int64(len(b)), 0, b)
			k = int(r)
		}
		w := ready[k]
		ready = append(ready[:k], ready[k+1:]...)
		close(w.ch)
	}
}
`

var concPackages = []string{"cmd/web", "cmd/app", "cmd/reports", "cmd/register", "cmd/accounts", "cmd/currencies", "cmd/download", "cmd/utils", "cmd/importer", "cmd/generate", "cmd/export", "script", "book", "loader"}

// instrumentConc puts scheduling points into the packages and links the web command.
func instrumentConc(repo string, put func(target, name string, data []byte) error) error {
	if err := put(filepath.Join(repo, "cmd/utils/simyield/simyield.go"), "conc/simyield.go", []byte(simyieldSrc)); err != nil {
		return err
	}
	for _, pkg := range concPackages {
		names, err := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
		if err != nil {
			return err
		}
		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			call := "simyield.Y(); "
			if pkg == "book" || pkg == "loader" {
				call = "simyield.Z(); "
			}
			b, err := instrumentFile(n, func(_ int, st ast.Stmt) string {
				if writesMap(st) {
					return call + "simyield.M(); "
				}
				return call
			})
			if err != nil {
				return err
			}
			if err := put(n, "conc/"+pkg+"/"+filepath.Base(n), b); err != nil {
				return err
			}
		}
	}
	// The embedded files of cmd/web are not in the repository.
	for _, f := range []string{"static/goledger.js", "static/goledger.css"} {
		if m, _ := filepath.Glob(filepath.Join(repo, "cmd/web/static/*"+filepath.Ext(f))); len(m) == 0 {
			if err := put(filepath.Join(repo, "cmd/web", f), "conc/web/"+f, []byte("/* */\n")); err != nil {
				return err
			}
		}
	}
	names, err := filepath.Glob(filepath.Join(repo, "cmd/*.go"))
	if err != nil {
		return err
	}
	sort.Strings(names)
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(n)
		if err != nil {
			return err
		}
		s, err := linkWeb(n, b)
		if err != nil {
			return err
		}
		if s != nil {
			return put(n, "conc/cmd/"+filepath.Base(n), s)
		}
	}
	return fmt.Errorf("%s/cmd: no place found where the commands are added, to add the web command at", repo)
}

// writesMap tells whether a statement may write to a map.
func writesMap(s ast.Stmt) bool {
	var lhs []ast.Expr
	switch s := s.(type) {
	case *ast.AssignStmt:
		lhs = s.Lhs
	case *ast.IncDecStmt:
		lhs = []ast.Expr{s.X}
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			f, ok := c.Fun.(*ast.Ident)
			return ok && (f.Name == "delete" || f.Name == "clear")
		}
	}
	for _, e := range lhs {
		if _, ok := e.(*ast.IndexExpr); ok {
			return true
		}
	}
	return false
}

func instrumentFile(name string, call func(line int, s ast.Stmt) string) ([]byte, error) {
	src, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var at []int
	what := map[int]ast.Stmt{}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			o := fset.Position(s.Pos()).Offset
			at, what[o] = append(at, o), s
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		}
		return true
	})
	if len(at) == 0 {
		return src, nil
	}
	sort.Ints(at)
	var out bytes.Buffer
	pkgEnd := fset.Position(f.Name.End()).Offset
	out.Write(src[:pkgEnd])
	out.WriteString("; import simyield \"github.com/mescanne/goledger/cmd/utils/simyield\"")
	prev := pkgEnd
	for _, o := range at {
		out.Write(src[prev:o])
		out.WriteString(call(1+bytes.Count(src[:o], []byte("\n")), what[o]))
		prev = o
	}
	out.Write(src[prev:])
	return out.Bytes(), nil
}

// linkWeb adds the web command to the command tree, where the report and the
// register are added: with the same application and settings. It returns nil if
// this is not the file that adds them.
func linkWeb(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	local := map[string]string{} // the names of the packages here
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, "\"")
		n := path[strings.LastIndexByte(path, '/')+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		if strings.Contains(path, "/cmd/") {
			local[n] = path[strings.LastIndexByte(path, '/')+1:]
		}
	}
	text := func(e ast.Expr) string {
		return string(src[fset.Position(e.Pos()).Offset:fset.Position(e.End()).Offset])
	}
	adds := map[string][]string{}
	pos := -1
	ast.Inspect(f, func(n ast.Node) bool {
		st, ok := n.(*ast.ExprStmt)
		if !ok {
			return true
		}
		c, ok := st.X.(*ast.CallExpr)
		if !ok || len(c.Args) < 2 {
			return true
		}
		sel, ok := c.Fun.(*ast.SelectorExpr)
		if !ok || sel.Sel.Name != "Add" {
			return true
		}
		x, ok := sel.X.(*ast.Ident)
		if !ok || local[x.Name] == "" {
			return true
		}
		var args []string
		for _, a := range c.Args {
			args = append(args, text(a))
		}
		adds[local[x.Name]] = args
		if local[x.Name] == "reports" {
			pos = fset.Position(st.End()).Offset
		}
		return true
	})
	if adds["web"] != nil {
		return src, nil // linked already
	}
	rep, reg := adds["reports"], adds["register"]
	if len(rep) < 3 || len(reg) < 3 {
		return nil, nil
	}
	pkgEnd := fset.Position(f.Name.End()).Offset
	var out bytes.Buffer
	out.Write(src[:pkgEnd])
	out.WriteString("; import simweb \"github.com/mescanne/goledger/cmd/web\"")
	out.Write(src[pkgEnd:pos])
	fmt.Fprintf(&out, "; simweb.Add(%s, &simweb.WebConfig{}, &simweb.WebApp{App: *(%s), Report: %s, Register: %s})", rep[0], rep[1], rep[2], reg[2])
	out.Write(src[pos:])
	return out.Bytes(), nil
}
