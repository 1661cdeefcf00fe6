package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
)

// Scenario "web": the reporting web server under concurrent and consecutive
// requests. What a request must be answered is what a fresh server answers to
// it alone.

type Web struct {
	prop    string
	l       *lworld
	env     map[string]string
	pending []*Step
	conns   []*Step
	max     int
	serves  int
	fresh   map[string]string
	errs    bool
	vers    []*World // the machine before and after an edit of its files
	local   []string // option to serve pages from a directory
}

func newWeb(prop string) Scenario { return &Web{prop: prop, fresh: map[string]string{}} }

func webCfg(prop string, r *rng) *Step {
	c := &Step{Op: "cfg", N: map[string]int64{}, S: map[string]string{}}
	c.N["seed"] = int64(r.u64() >> 1)
	c.N["start"] = int64(r.intn(900))*day + int64(r.intn(10000))*sec - (epoch % day) + 9*hour
	c.N["opttx"] = []int64{1, 3, 6, 12}[r.intn(4)]
	c.N["den"] = []int64{1, 3, 10, 40, 1000}[weighted(r, 3, 3, 2, 1, 1)]
	c.N["errs"] = int64(weighted(r, 2, 1))
	c.N["optlocal"] = int64(weighted(r, 2, 1))
	return c
}

func (s *Web) Init(x *Exec) {
	c := x.cfg
	r := newRng(uint64(c.n("seed")))
	w := x.k.world(epoch + c.n("start"))
	x.w = w
	s.l = buildLedger(r, w.now, int(c.n("opttx")), nil)
	s.l.install(w)
	w.fs.put("/work/other.ledger", []byte("2020/01/02 Other\n  Asset:Other  £ 5.00\n  Equity:Opening\n\n2021/02/03 More\n  Asset:Other  £ 1.25\n  Expense:Food\n"))
	w.fs.put("/work/broken.ledger", []byte("2020/01/02 Broken\n  Asset:Other  £ 5.00\n  Equity:Opening\n\nwhat is this\n"))
	s.env = map[string]string{"GOSIM_YIELD": fmt.Sprint(c.n("den"))}
	for k, v := range s.l.confEnv {
		s.env[k] = v
	}
	if c.n("optlocal") == 1 {
		s.local = []string{"--local", "/work/www"}
		s.l.aux["/work/www/index.html"] = "<html>" + strings.Repeat("own page ", r.intn(900)) + "</html>"
		s.l.aux["/work/www/sub/page.html"] = "<html>page</html>"
		s.l.aux["/work/www/big.txt"] = strings.Repeat("0123456789\n\n", r.intn(7000))
		s.l.aux["/work/www/empty.css"] = ""
		s.l.install(w)
	}
	s.max = 1 + r.intn(2)
	s.errs = c.n("errs") == 1
	w.maxOps = 400000
}

// target draws a request.
func (s *Web) target(r *rng) string {
	if s.local != nil && (r.chance(1, 10) || s.prop == "L03" && r.chance(1, 3)) {
		return r.pick([]string{"/", "/index.html", "/sub/page.html", "/sub/", "/sub", "/big.txt", "/big.txt", "/empty.css", "/nope", "/../books.ledger", "/static/goledger.js"})
	}
	if r.chance(1, 12) {
		return r.pick([]string{"/", "/index.html", "/static/goledger.js", "/nope", "/goledger", "/static/", "/goledger?arg=", "/goledger?x=1"})
	}
	method := ""
	if r.chance(1, 12) {
		method = "POST "
	}
	var args []string
	switch weighted(r, 8, 3, 1, 1) {
	case 0:
		args = s.l.command(r, cmdKinds{register: 3, report: 5, accts: 2, ccy: 1, css: true}).Args
	case 1:
		// Few or no options: what an earlier request set would show.
		args = []string{r.pick([]string{"report", "register", "accts", "ccy", "report", "register"})}
		if args[0] == "register" {
			args = append(args, r.pick([]string{"--asc", "--asc=true"}), r.pick([]string{".*", "Asset.*"}))
		}
	case 2:
		args = []string{r.pick([]string{"help", "nonsense", "--help", "report", "--version", "register", "ops", "macros"})}
		if r.chance(1, 2) {
			args = append(args, r.pick([]string{"--bogus", "--type=Nope", "--count=x", "report", "register", "--splitby=never"}))
		}
	case 3:
		args = []string{r.pick([]string{"report", "accts", "accts"}), r.pick([]string{"bogus=/x/", "[", "(", "since=whenever", "map=/(/x/", "unknownmacro"})}
	}
	switch weighted(r, 10, 2, 1, 1, 1, 1, 1) {
	case 1:
		args = append(args, "--ledger", "/work/other.ledger")
	case 2:
		args = append(args, "--ledger", "/work/broken.ledger")
	case 3:
		args = append(args, "-l", "/work/missing.ledger")
	case 4:
		args = append(args, "--divider", "/")
	case 5:
		args = append(args, "--ccy", r.pick([]string{"EUR", "USD"}))
	case 6:
		args = append(args, "--all", "--lang", "nl")
	}
	v := url.Values{}
	for _, a := range args {
		v.Add("arg", a)
	}
	return method + "/goledger?" + v.Encode()
}

// webRequest is the text of a request: a target, or a method and a target.
func webRequest(target string, last bool) string {
	method, body := "GET", ""
	if m, t, ok := strings.Cut(target, " "); ok {
		method, target = m, t
	}
	text := ""
	if method == "POST" {
		body = "arg=report&arg=--type=Ledger"
		text = fmt.Sprintf("Content-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n", len(body))
	}
	if last {
		text += "Connection: close\r\n"
	}
	return method + " " + target + " HTTP/1.1\r\nHost: localhost:8080\r\nAccept: */*\r\n" + text + "\r\n" + body
}

func (s *Web) Next(x *Exec, r *rng) *Step {
	if s.serves >= s.max {
		return nil
	}
	if len(s.pending) == 0 || (len(s.pending) < 9 && r.chance(4, 5)) {
		st := &Step{Op: "client", S: map[string]string{}, N: map[string]int64{}}
		n := 1 + weighted(r, 6, 2, 1)
		for i := 0; i < n; i++ {
			t := s.target(r)
			if len(s.pending) > 0 && r.chance(1, 4) {
				t = s.pending[r.intn(len(s.pending))].S["r0"]
			}
			st.S[fmt.Sprintf("r%d", i)] = t
		}
		st.N["reqs"] = int64(n)
		switch weighted(r, 5, 2, 1) {
		case 1:
			st.N["at"] = int64(r.intn(3)) * 1e6
		case 2:
			st.N["at"] = int64(r.intn(20000)) * 1e6
		}
		st.N["kind"] = int64(weighted(r, 6, 1, 1, 1)) // 0 plain, 1 slow pieces, 2 never reads on, 3 vanishes
		st.N["seed"] = int64(r.u64() >> 1)
		return st
	}
	c := &Cmd{Args: append([]string{"web"}, s.local...), Env: s.env, Seed: r.u64() >> 1}
	if r.chance(1, 3) {
		c.Args = append(c.Args, "--port", "9001", "--host", "127.0.0.1")
	}
	st := &Step{Op: "serve", Cmds: []*Cmd{c}}
	if s.errs || s.prop == "L03" {
		g := x.w.fork()
		conns := s.conns
		s.script(g)
		ref := g.runAll([]*Cmd{bare(c)}, g.binConc, nil)[0]
		s.conns = conns
		if s.prop == "L03" {
			st.S, st.N = map[string]string{}, map[string]int64{}
			var ops []opRec
			for _, o := range ref.ops {
				if o.path != "/home/u/g.toml" { // read before the server starts
					ops = append(ops, o)
				}
			}
			var pages []opRec
			for _, o := range ops {
				if strings.HasPrefix(o.path, "/work/www/") && strings.Contains(o.path, ".") {
					pages = append(pages, o)
				}
			}
			if len(pages) > 0 && r.chance(1, 2) {
				ops = pages
			}
			drawEdit(r, st, ops, s.l, 1)
			return st
		}
		var ops []opRec
		for _, o := range ref.ops {
			if strings.HasSuffix(o.path, ".ledger") {
				ops = append(ops, o)
			}
		}
		c.Faults = placeFaults(r, ops, faultMix{errs: r.chance(3, 4), soft: true}, nil, 3)
	}
	return st
}

func (s *Web) script(w *World) {
	s.conns = nil
	var out []scriptConn
	for _, st := range s.pending {
		s.conns = append(s.conns, st)
		r := newRng(uint64(st.n("seed")))
		text := ""
		n := int(st.n("reqs"))
		for i := 0; i < n; i++ {
			text += webRequest(st.S[fmt.Sprintf("r%d", i)], i == n-1)
		}
		c := scriptConn{at: st.n("at"), hang: st.n("kind") == 2, abort: st.n("kind") == 3}
		switch {
		case st.n("kind") == 1:
			for len(text) > 0 {
				k := min(1+r.intn(len(text)), len(text))
				c.delays = append(c.delays, int64(r.intn(500))*1e6)
				c.chunks = append(c.chunks, text[:k])
				text = text[k:]
			}
		case c.hang && r.chance(1, 2):
			c.delays, c.chunks = []int64{0}, []string{text[:r.intn(len(text))] + " "}
		default:
			c.delays, c.chunks = []int64{0}, []string{text}
		}
		out = append(out, c)
	}
	if len(out) == 0 {
		out = append(out, scriptConn{delays: []int64{0}, chunks: []string{"GET /nope HTTP/1.0\r\n\r\n"}})
	}
	w.listenFn = func(p *proc, addr string) (int64, []scriptConn) { return 1, out }
}

// alone is the answer of a fresh server to one request.
func (s *Web) alone(ver int, target string) string {
	key := fmt.Sprint(s.serves, ver, target)
	if a, ok := s.fresh[key]; ok {
		return a
	}
	g := s.vers[ver].fork()
	env := map[string]string{}
	for k, v := range s.env {
		env[k] = v
	}
	env["GOSIM_YIELD"] = "1000000000"
	g.listenFn = func(p *proc, addr string) (int64, []scriptConn) {
		return 1, []scriptConn{{delays: []int64{0}, chunks: []string{webRequest(target, true)}}}
	}
	res := g.runAll([]*Cmd{{Args: append([]string{"web"}, s.local...), Env: env, Seed: 77}}, g.binConc, nil)[0]
	a := ""
	if res.Killed != "done" {
		a = "DIED " + fmt.Sprint(res.Exit)
	} else {
		as, _ := answers(res.conns[0].data)
		if len(as) > 0 {
			a = as[0]
		} else {
			a = "NONE"
		}
	}
	s.fresh[key] = a
	return a
}

// crashes tells whether a request gets no answer from a fresh server.
func (s *Web) crashes(target string) bool {
	for v := range s.vers {
		if s.alone(v, target) == "NONE" {
			return true
		}
	}
	return false
}

// answers splits what a connection received into complete answers (status,
// content type and body), and tells whether something incomplete follows.
func answers(data string) ([]string, bool) {
	var out []string
	br := bufio.NewReader(strings.NewReader(data))
	for {
		if _, err := br.Peek(1); err != nil {
			return out, false
		}
		resp, err := http.ReadResponse(br, nil)
		if err != nil {
			return out, true
		}
		var b bytes.Buffer
		if _, err := io.Copy(&b, resp.Body); err != nil {
			return out, true
		}
		out = append(out, fmt.Sprintf("%d %s %s\n%s", resp.StatusCode, resp.Header.Get("Content-Type"), resp.Header.Get("Location"), b.String()))
	}
}

func (s *Web) Do(x *Exec, st *Step) *Violation {
	w := x.w
	if st.Op == "client" {
		s.pending = append(s.pending, st)
		return nil
	}
	s.serves++
	s.script(w)
	s.pending = nil
	now := w.now
	s.vers = []*World{w.fork()}
	edited := int64(-1)
	w.editFn = func(p *proc, i int64) {
		if edited < 0 {
			stepEdit(w, st, int(i))
			edited = p.lastNow
			g := s.vers[0].fork()
			stepEdit(g, st, int(i))
			s.vers = append(s.vers, g)
		}
	}
	// First what is expected, at the same time of day.
	for _, c := range s.conns {
		for i := 0; i < int(c.n("reqs")); i++ {
			t := c.S[fmt.Sprintf("r%d", i)]
			if a := s.alone(0, t); strings.HasPrefix(a, "DIED") {
				return viol("server-died", "a fresh server dies on the request %s", show(t))
			}
		}
	}
	res := w.runAll(st.Cmds, w.binConc, nil)[0]
	w.now = now
	w.editFn = nil
	if s.prop == "L03" {
		defer s.l.install(w)
		if edited < 0 {
			x.probe("no edit happened")
		}
	}
	x.sig = true
	x.note("%d:%d:%s", len(s.conns), res.yields, strings.Join(uniq(append([]string(nil), res.fired...)), ","))
	if len(s.conns) == 0 {
		return nil
	}
	if res.Overrun {
		return viol("no-end", "the server does not come to rest")
	}
	if res.Killed != "done" {
		return viol("server-died", "the server ended while serving (exit %d): %s", res.Exit, errText(res))
	}
	hard := 0
	for _, f := range res.fired {
		if f != "EINTR" && f != "short" && f != "edit" {
			hard++
		}
	}
	overlap := map[int64]int{}
	for i, c := range s.conns {
		overlap[c.n("at")]++
		got := res.conns[int64(i)]
		as, rest := answers(got.data)
		n := int(c.n("reqs"))
		if len(as) > n && !(c.n("kind") == 2 && len(as) <= n+1) {
			return viol("extra-answer", "%d requests on a connection got %d answers", n, len(as))
		}
		for j, a := range as {
			if j >= n {
				break
			}
			t := c.S[fmt.Sprintf("r%d", j)]
			want := s.alone(0, t)
			if edited >= 0 {
				after := s.alone(1, t)
				if c.n("at") > edited {
					want = after // saved before it was asked
					if a == after && a != s.alone(0, t) {
						x.probe("answer shows books saved before the request")
					}
				} else if a == after && a != want {
					x.probe("answer shows books saved during the request")
					continue
				}
			}
			if a == want {
				x.probe("answer compared")
				continue
			}
			if c.n("kind") == 2 && strings.HasPrefix(a, "400 ") {
				continue // it sent a broken request
			}
			if hard > 0 && strings.Contains(a, "Error") {
				hard--
				x.probe("request fails alone")
				continue
			}
			return viol("foreign-answer", "the answer to %s differs from a fresh server's: %s", show(t), diffText([]byte(want), []byte(a)))
		}
		switch {
		case c.n("kind") <= 1 && len(as) < n && s.crashes(c.S[fmt.Sprintf("r%d", len(as))]):
			x.probe("request that crashes its handler")
		case c.n("kind") <= 1 && (len(as) < n || rest):
			if hard > 0 {
				hard--
				continue
			}
			return viol("no-answer", "request %s was not answered (%s)", show(c.S[fmt.Sprintf("r%d", min(len(as), n-1))]), got.kind)
		case c.n("kind") >= 2:
			x.probe("client that goes away")
		}
	}
	for _, n := range overlap {
		if n > 1 {
			x.probe("clients at the same instant")
		}
	}
	return nil
}

func show(target string) string {
	if u, err := url.Parse(target[strings.Index(target, "/"):]); err == nil && len(u.Query()["arg"]) > 0 {
		return strings.Join(u.Query()["arg"], " ")
	}
	return target
}

func (s *Web) Finish(x *Exec) *Violation { return nil }

func init() {
	register(&Property{ID: "W01", Conc: true, Scenarios: []ScenarioDef{{Name: "web", Weight: 1, Cfg: webCfg, New: newWeb}}, Quick: 700, Thorough: 16000,
		Real:   []string{"goledger binary with the web command linked in: cmd/web, cmd/app, cmd/reports, cmd/register, cmd/accounts, cmd/currencies, book, loader (compiled from /repo, with scheduling points before every statement)", "Go runtime and standard library, net/http server, cobra"},
		Stub:   []string{"kernel: files, clock, listener and connections (simulated)", "the clients", "the choice of the goroutine that goes on (simulator)", "cmd/web/static (not in the repository): an empty script and style sheet"},
		Rule:   "a run is 1-2 servers with up to 10 clients of 1-3 requests each, most at the same instant, some slow or vanishing, the simulator choosing which handler goes on at every statement, with read faults of the ledger; every answer is compared with that of a fresh server; distinct by clients, scheduling decisions and faults",
		Assume: []string{"the ledger does not change while a server is compared", "interleavings are those at statement boundaries of the listed packages (in book and loader a sample of them) and in the middle of writes to maps"}})
}
