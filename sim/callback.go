package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"regexp"
	"strings"
	"syscall"
)

// Scenario "callback": authorising the program at Monzo. The program prints a
// link and serves the redirect on a loop-back port, where anything may connect:
// the browser, other tabs, port scanners, web pages that try to slip in a code
// of somebody else's account. All in every order and interleaving.

type cbReq struct{ code, state string } // what one request carries

type cbConn struct {
	at     int64
	reqs   []cbReq
	script scriptConn
	valid  bool // one plain request with a code of the customer's and the right state
}

type Callback struct {
	path    string
	env     map[string]string
	pending []*Step
	conns   []cbConn
	state   string
	seq     int
	codes   []string // exchanged, per login
	logins  int
	max     int
	mix     faultMix
	linked  bool
	served  bool
	prop    string
	leak    *Violation
}

func newCallback(prop string) Scenario { return &Callback{prop: prop} }

func callbackCfg(prop string, r *rng) *Step {
	c := &Step{Op: "cfg", N: map[string]int64{}, S: map[string]string{}}
	c.N["start"] = int64(r.intn(400*24*3600))*sec + int64(r.intn(int(sec)))
	c.N["den"] = []int64{1, 1, 2, 6, 40}[r.intn(5)]
	c.N["max"] = int64(1 + r.intn(3))
	c.N["port"] = int64([]int{0, 9000}[r.intn(2)])
	c.N["plain"] = int64(weighted(r, 1, 1)) // 0: no faults
	c.N["approval"] = int64(r.intn(2))
	c.N["mix"] = int64(r.u64() >> 1)
	return c
}

func (s *Callback) Init(x *Exec) {
	c := x.cfg
	w := x.k.world(epoch + c.n("start"))
	x.w = w
	s.path = "/work/monzo.json"
	s.max = int(c.n("max"))
	s.mix = faultMix{}
	if c.n("plain") != 0 {
		s.mix = randomMix(newRng(uint64(c.n("mix"))))
	}
	if s.prop == "K01" {
		s.mix.away, s.mix.http = true, true
	}
	conf := "[Download.Monzo]\nClientID = \"cid\"\nClientSecret = \"csecret-93ab77d0\"\n"
	w.fs.put("/home/u/g.toml", []byte(conf))
	s.env = map[string]string{"GOLEDGER_CONF": "/home/u/g.toml", "GOSIM_YIELD": fmt.Sprint(c.n("den"))}
	m := w.bank.monzo
	m.NeedApproval = c.n("approval") == 1
	m.Accts = append(m.Accts, &mAcct{ID: "acc_0000", Desc: "user"})
	w.fs.syncAll()
	w.maxOps = 400000
	w.listenFn = func(p *proc, addr string) (int64, []scriptConn) { return s.listen(p, addr) }
	w.httpHook = func(p *proc, method, u string, hdr map[string]string, body string) {
		if s.prop == "K01" && s.leak == nil {
			s.leak = sentAway(w, u, hdr, body)
		}
		if strings.HasSuffix(u, "/oauth2/token") {
			f, _ := url.ParseQuery(body)
			if f.Get("grant_type") == "authorization_code" {
				s.codes = append(s.codes, f.Get("code"))
			}
		}
	}
}

var stateRe = regexp.MustCompile(`[?&]state=([^&\s]*)`)

func (s *Callback) listen(p *proc, addr string) (int64, []scriptConn) {
	s.state = ""
	if m := stateRe.FindStringSubmatch(string(p.res.Stdout)); m != nil {
		s.state, _ = url.QueryUnescape(m[1])
	}
	s.served = true
	s.conns = nil
	var out []scriptConn
	for _, st := range s.pending {
		c := s.build(st)
		s.conns = append(s.conns, c)
		out = append(out, c.script)
	}
	if len(out) == 0 {
		out = append(out, scriptConn{at: 0, delays: []int64{0}, chunks: []string{"x\r\n\r\n"}})
	}
	_ = syscall.EADDRINUSE
	return 1, out
}

// The kinds of connection.
var cbKinds = []string{"good", "evil", "favicon", "denied", "near", "nocode", "dupcode", "post", "junk", "partial", "slowgood", "goodthenevil", "evilthengood", "head", "encoded", "split", "hangup"}

func (s *Callback) build(st *Step) cbConn {
	r := newRng(uint64(st.n("seed")))
	S := s.state
	if S == "" {
		S = "unknown"
	}
	id := st.n("id")
	good := fmt.Sprintf("good-%d", id)
	evil := fmt.Sprintf("evil-%d", id)
	c := cbConn{at: st.n("at")}
	q := func(code, state string) string {
		c.reqs = append(c.reqs, cbReq{code, state})
		return "code=" + url.QueryEscape(code) + "&state=" + url.QueryEscape(state)
	}
	get := func(target string) string {
		return "GET " + target + " HTTP/1.1\r\nHost: localhost:9000\r\nUser-Agent: sim\r\n\r\n"
	}
	bad := func() string {
		near := []string{S + "0", S + " ", " " + S, "0" + S, "+" + S, "", "-" + S, S[:len(S)-1], S[1:], S + "x", S + "\x00", S + "&", S + S, "1", "0", "%", strings.Repeat("9", 19), S + "." + "0", S + ",1"}
		if i := len(S) / 2; S[i] != '7' {
			near = append(near, S[:i]+"7"+S[i+1:])
		}
		return near[r.intn(len(near))]
	}
	text, hang := "", false
	kind := st.S["kind"]
	switch kind {
	case "good":
		text = get("/?" + q(good, S))
		c.valid = true
	case "encoded":
		code := good + "/+ä =&" + "x"
		text = get("/?" + q(code, S) + "&scope=")
		c.valid = true
	case "evil":
		text = get("/?" + q(evil, fmt.Sprint(r.u64()>>2)))
	case "near":
		text = get("/?" + q(evil, bad()))
	case "favicon":
		text = get("/favicon.ico")
	case "denied":
		text = get("/?error=access_denied&state=" + S)
	case "nocode":
		text = get([]string{"/?state=" + S, "/?code=" + evil, "/", "/?code=" + evil + ";state=" + S, "/?Code=" + evil + "&State=" + S, "/callback#code=" + evil + "&state=" + S}[r.intn(6)])
	case "dupcode":
		// Ambiguous, also with the right state.
		e, y := "code="+evil, "state="+S
		text = get("/?" + []string{e + "&code=" + evil + "x&state=1&state=2", e + "&" + y + "&code=" + evil + "x", y + "&" + e + "&code=" + good, "code=&" + e + "&" + y,
			e + "&" + y + "&state=1", e + "&state=1&" + y, e + "&" + y + "&state=", e + "&" + y + "&code=" + evil + "x&state=2"}[r.intn(8)])
	case "post":
		b := "code=" + evil + "&state=" + bad()
		text = fmt.Sprintf("POST /?code=%s&state=%s HTTP/1.1\r\nHost: localhost\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n\r\n%s", evil, "5", len(b), b)
		c.reqs = append(c.reqs, cbReq{evil, "5"})
	case "junk":
		text = []string{"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "SSH-2.0-scan\r\n\r\n", "\r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "GET\r\n\r\n", "GET /%zz HTTP/1.1\r\nHost: x\r\n\r\n"}[r.intn(6)]
	case "partial":
		text, hang = "GET /?"+q(evil, "3")+" HTTP/1.1\r\nHo", true
		c.reqs = nil
	case "hangup":
		text, hang = get("/?"+q(good, S)), true
	case "head":
		text = "HEAD / HTTP/1.1\r\nHost: localhost\r\n\r\n"
	case "slowgood":
		text = get("/?" + q(good, S))
	case "goodthenevil":
		text = get("/?"+q(good, S)) + get("/?"+q(evil, "4"))
	case "evilthengood":
		text = get("/?"+q(evil, "4")) + get("/?"+q(good, S))
	case "split":
		text = get("/?" + q(good, S))
	default:
		hfail("connection kind %q", kind)
	}
	sc := scriptConn{at: c.at, hang: hang}
	switch kind {
	case "slowgood", "split":
		for len(text) > 0 {
			n := min(1+r.intn(len(text)), len(text))
			d := int64(0)
			if kind == "slowgood" {
				d = int64(r.intn(2000)) * 1e6
			}
			sc.delays = append(sc.delays, d)
			sc.chunks = append(sc.chunks, text[:n])
			text = text[n:]
		}
	default:
		sc.delays, sc.chunks = []int64{0}, []string{text}
	}
	c.script = sc
	return c
}

func (s *Callback) Next(x *Exec, r *rng) *Step {
	if s.logins >= s.max || s.linked {
		return nil
	}
	// A login is preceded by the connections made to it.
	if len(s.pending) == 0 || (len(s.pending) < 8 && r.chance(2, 3)) {
		kind := cbKinds[weighted(r, 7, 5, 2, 1, 3, 2, 2, 1, 2, 1, 2, 2, 2, 1, 1, 2, 1)]
		s.seq++
		at := int64(0)
		switch weighted(r, 4, 2, 1) {
		case 1:
			at = int64(r.intn(4)) * 1e6
		case 2:
			at = int64(r.intn(5000)) * 1e6
		}
		return &Step{Op: "conn", S: map[string]string{"kind": kind}, N: map[string]int64{"id": int64(s.seq), "at": at, "seed": int64(r.u64() >> 1)}}
	}
	c := s.cmd(r.u64() >> 1)
	st := &Step{Op: "login", Cmds: []*Cmd{c}}
	if (s.mix.kill || s.mix.power || s.mix.errs || s.mix.http) && r.chance(1, 2) {
		g := x.w.fork()
		codes, conns, state := s.codes, s.conns, s.state
		s.offer(g)
		ref := g.runAll([]*Cmd{bare(c)}, g.binConc, nil)[0]
		s.codes, s.conns, s.state = codes, conns, state
		var ops []opRec
		for _, o := range ref.ops {
			if o.class != "time" && o.path != "/home/u/g.toml" {
				ops = append(ops, o)
			}
		}
		c.Faults = placeFaults(r, ops, s.mix, []string{"http", "monzo", "listen"}, 2)
	}
	return st
}

func (s *Callback) cmd(seed uint64) *Cmd {
	return &Cmd{Args: []string{"download", "monzo", s.path}, Env: s.env, Seed: seed}
}

// offer makes the bank know the codes of the connections.
func (s *Callback) offer(w *World) {
	for _, st := range s.pending {
		id := st.n("id")
		for _, c := range []string{fmt.Sprintf("good-%d", id), fmt.Sprintf("evil-%d", id), fmt.Sprintf("good-%d/+ä =&x", id), fmt.Sprintf("evil-%dx", id)} {
			if _, ok := w.bank.monzo.Codes[c]; !ok {
				w.bank.monzo.Codes[c] = true
			}
		}
	}
}

func (s *Callback) Do(x *Exec, st *Step) *Violation {
	w := x.w
	if st.Op == "conn" {
		s.pending = append(s.pending, st)
		return nil
	}
	s.logins++
	s.codes, s.conns, s.state, s.served = nil, nil, "", false
	s.offer(w)
	issued := len(w.bank.monzo.Exchanged)
	res := w.runAll(st.Cmds, w.binConc, nil)[0]
	pending := s.pending
	s.pending = nil
	x.sig = true
	if s.prop == "K01" {
		if s.leak != nil {
			return s.leak
		}
		if v := printed(w, []*procResult{res}); v != nil {
			return v
		}
		if in := w.fs.lookup(s.path); in != nil && in.mode&0077 != 0 {
			return viol("state-readable", "the new state file has permissions %o: others can read the credentials in it", in.mode)
		}
		s.linked = s.linked || s.storedToken(w) != ""
		return nil
	}
	kinds := []string{}
	for _, p := range pending {
		kinds = append(kinds, p.S["kind"])
	}
	x.note("%s:%s:%d:%d", strings.Join(kinds, ","), strings.Join(uniq(append([]string(nil), res.fired...)), ","), res.Exit, res.yields)
	if res.Overrun {
		return viol("no-end", "the authorisation does not end")
	}
	if strings.Contains(res.Panic, "panic:") && res.Killed == "" {
		return viol("panic", "the authorisation crashed: %s", firstLine(res.Panic))
	}
	// Every code sent to the bank came with the right state, in one request.
	seen := map[string]bool{}
	for _, code := range s.codes {
		ok := false
		for _, c := range s.conns {
			for _, q := range c.reqs {
				if q.code == code && q.state == s.state && s.state != "" {
					ok = true
				}
			}
		}
		if !ok {
			return viol("foreign-code", "the code %q was exchanged, which no call-back carried alone and together with only the state %s of this authorisation", code, s.state)
		}
		seen[code] = true
	}
	if len(seen) > 1 {
		return viol("two-codes", "two codes were exchanged in one authorisation: %v", s.codes)
	}
	if len(seen) == 1 {
		x.probe("a code is exchanged")
	}
	hard := res.Killed == "kill" || res.Killed == "power"
	for _, f := range res.fired {
		if f != "EINTR" && f != "short" && f != "chunks" && f != "delay" {
			hard = true
		}
	}
	if res.Killed == "done" {
		x.probe("no valid call-back: still waiting")
	}
	// What it says about the outcome.
	says := strings.Contains(strings.ToLower(string(res.Stdout)), "approve")
	stored := s.storedToken(w)
	if says && res.Killed != "power" && w.bank.monzo.Access[stored] == nil {
		return viol("not-stored", "the command says the customer must approve the access, but the credential is not stored")
	}
	if says && len(w.bank.monzo.Exchanged) == issued {
		return viol("approve-without-code", "the command says the customer must approve the access, but no code was exchanged")
	}
	if stored != "" {
		s.linked = true
	}
	if res.Killed == "" && !s.linked && res.Exit == 0 {
		return viol("silent", "the authorisation failed but the command exits 0")
	}
	if first := s.first(); !hard && s.served && s.state != "" && first != nil {
		x.probe("first connection is the valid call-back")
		if len(seen) == 0 {
			return viol("valid-refused", "the first connection was the valid call-back, but no code was exchanged (exit %d %s): %s", res.Exit, res.Killed, errText(res))
		}
		if !seen[first.reqs[0].code] {
			return viol("valid-ignored", "the first connection was the valid call-back with %q, but %v was exchanged", first.reqs[0].code, s.codes)
		}
		if !says || stored == "" {
			return viol("not-completed", "after the valid call-back the credential is stored: %v, the command asks for approval: %v (exit %d): %s", stored != "", says, res.Exit, errText(res))
		}
		x.probe("authorised")
	} else if !hard && len(seen) == 1 && s.linked && !says {
		return viol("not-said", "the credential is stored but the command does not ask for approval")
	}
	if s.linked && len(s.codes) > 0 {
		x.probe("credential stored")
	}
	return nil
}

// first is the connection that came first, if it is valid and alone at its time.
func (s *Callback) first() *cbConn {
	k := -1
	for i := range s.conns {
		if k < 0 || s.conns[i].at < s.conns[k].at {
			k = i
		}
	}
	if k < 0 || !s.conns[k].valid {
		return nil
	}
	for i := range s.conns {
		if i != k && s.conns[i].at == s.conns[k].at {
			return nil
		}
	}
	return &s.conns[k]
}

func (s *Callback) storedToken(w *World) string {
	b, ok := w.fs.get(s.path)
	if !ok {
		return ""
	}
	var doc struct {
		Token struct {
			Access string `json:"access_token"`
		} `json:"token"`
	}
	if json.Unmarshal(b, &doc) != nil {
		return ""
	}
	return doc.Token.Access
}

func (s *Callback) Finish(x *Exec) *Violation {
	w := x.w
	s.pending = nil
	if s.prop == "K01" {
		return nil
	}
	if s.linked && s.logins > 0 {
		// The customer approves; the credential works.
		w.bank.monzo.Approved = true
		s.codes = nil
		res := w.run(&Cmd{Args: []string{"download", "monzo", s.path}, Env: s.env, Seed: 3})
		if len(s.codes) > 0 {
			return viol("foreign-code", "a code was exchanged although a credential is stored")
		}
		if !res.ok() {
			return viol("credential-useless", "after approval the stored credential does not work (exit %d): %s", res.Exit, errText(res))
		}
		x.probe("credential works after approval")
	}
	return nil
}

func init() {
	register(&Property{ID: "S09", Conc: true, Scenarios: []ScenarioDef{{Name: "callback", Weight: 1, Cfg: callbackCfg, New: newCallback}}, Quick: 2500, Thorough: 60000,
		Real:   []string{"goledger binary: cmd/download Monzo authorisation, cmd/utils storage (compiled from /repo, with scheduling points before every statement)", "Go runtime and standard library, net/http server, oauth2"},
		Stub:   []string{"kernel: files, clock, loop-back listener and connections (simulated)", "the browser and everything else that connects", "Monzo's authorisation server (model)", "the choice of the goroutine that goes on (simulator)"},
		Rule:   "a run is 1-3 attempts to authorise, each with up to 8 connections of 17 kinds (valid, forged, malformed, slow, pipelined, abandoned), most at the same instant, the simulator choosing which handler goes on at every statement, with disk and bank faults, kills and power loss; distinct by kinds, faults, outcome and scheduling decisions",
		Assume: []string{"nobody but the browser knows the state value", "interleavings are those at statement boundaries of cmd/download, cmd/utils and at blocking operations of the runtime; expressions are atomic"}})
}
