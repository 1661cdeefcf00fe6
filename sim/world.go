package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
)

// World is one simulated machine, its clock, its disk and the banks it talks to.
type World struct {
	fs        *vfs
	now       int64 // true time, ns since the epoch
	tz        string
	skew      int64 // what the machine's clock shows, minus true time
	pid       int
	cwd       string
	bank      *Banks
	trace     []string
	stats     *Stats
	maxOps    int
	powered   bool // power was lost during the current run
	powerSeed uint64
	watch     map[string]func(p *proc, path string)
	mutHook   func(p *proc, class string) // after every change of the disk
	stepHook  func()                      // before every request
	editFn    func(p *proc, i int64)
	httpHook  func(p *proc, method, url string, hdr map[string]string, body string)
	listenFn  func(p *proc, addr string) (int64, []scriptConn)
	errPool   *[]*os.File
	devnull   *os.File
	bin       string
	binConc   string
	sched     func(n int) int // multi-process choice
	nproc     int
}

type scriptConn struct {
	at     int64
	hang   bool
	abort  bool
	delays []int64
	chunks []string
}

type Worker struct {
	bin, binConc string
	devnull      *os.File
	errPool      []*os.File
	stats        *Stats
}

func newWorker(bin, binConc string) *Worker {
	f, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		hfail("%v", err)
	}
	return &Worker{bin: bin, binConc: binConc, devnull: f, stats: newStats()}
}

func (k *Worker) world(now int64) *World {
	w := &World{fs: newVFS(), now: now, cwd: "/work", bank: newBanks(), stats: k.stats, maxOps: 20000,
		watch: map[string]func(*proc, string){}, errPool: &k.errPool, devnull: k.devnull, bin: k.bin, binConc: k.binConc}
	w.fs.now = now
	w.fs.mkdirAll("/work")
	w.fs.mkdirAll("/home/u")
	w.fs.mkdirAll("/tmp")
	return w
}

// fork copies the machine, disk and banks, so that a step can be rehearsed.
func (w *World) fork() *World {
	n := *w
	n.fs = w.fs.clone()
	n.bank = w.bank.clone()
	n.trace = nil
	n.watch = map[string]func(*proc, string){}
	n.httpHook = nil
	n.mutHook = nil
	n.stepHook = nil
	n.editFn = nil
	return &n
}

func (w *World) errFile() *os.File {
	if n := len(*w.errPool); n > 0 {
		f := (*w.errPool)[n-1]
		*w.errPool = (*w.errPool)[:n-1]
		return f
	}
	fd, err := memfd()
	if err != nil {
		hfail("memfd: %v", err)
	}
	return fd
}

func memfd() (*os.File, error) {
	name := []byte("simerr\x00")
	fd, _, e := syscall.Syscall(319, uintptr(ptr(name)), 1, 0)
	if e != 0 {
		return nil, e
	}
	return os.NewFile(fd, "simerr"), nil
}

func (w *World) putErrFile(f *os.File) {
	f.Truncate(0)
	f.Seek(0, 0)
	*w.errPool = append(*w.errPool, f)
}

func (w *World) tracef(format string, a ...any) {
	w.trace = append(w.trace, fmt.Sprintf(format, a...))
}

func (w *World) traceHash() string {
	h := sha256.Sum256([]byte(strings.Join(w.trace, "\n")))
	return hex.EncodeToString(h[:8])
}

func (w *World) onWrite(p *proc, path string) {
	if f := w.watch[path]; f != nil {
		f(p, path)
	}
}

// run executes one command to its end.
func (w *World) run(c *Cmd) *procResult { return w.runAll([]*Cmd{c}, w.bin, nil)[0] }

// runAll executes commands concurrently; choose picks which of n runnable
// processes makes the next request.
func (w *World) runAll(cs []*Cmd, bin string, choose func(n int) int) []*procResult {
	w.powered = false
	ps := make([]*proc, len(cs))
	defer func() {
		for _, p := range ps {
			if p != nil && !p.dead {
				p.p.Signal(syscall.SIGKILL)
				p.reap()
			}
		}
	}()
	for i, c := range cs {
		ps[i] = startProc(w, c, bin)
		ps[i].pending = ps[i].next()
	}
	w.stats.Procs += len(cs)
	for {
		var live []*proc
		for _, p := range ps {
			if !p.dead {
				live = append(live, p)
			}
		}
		if len(live) == 0 {
			break
		}
		k := 0
		if len(live) > 1 && choose != nil {
			k = choose(len(live))
		}
		p := live[k]
		if w.stepHook != nil {
			w.stepHook()
		}
		if p.handle(p.pending) {
			p.pending = p.next()
		}
		if w.powered {
			for _, q := range ps {
				if !q.dead {
					q.res.Killed = "power"
					q.kill()
				}
			}
			d := w.fs.powerLoss(newRng(w.powerSeed))
			w.tracef("after power loss: %s", d)
			break
		}
	}
	rs := make([]*procResult, len(ps))
	for i, p := range ps {
		rs[i] = p.res
		w.stats.SimNs += p.res.clock
		w.stats.Ops += p.res.steps
	}
	return rs
}

// http answers one request of the simulated network.
func (w *World) http(p *proc, raw []byte, act string, arg int64) []byte {
	head, body, _ := strings.Cut(string(raw), "\n\n")
	lines := strings.Split(head, "\n")
	hdr := map[string]string{}
	for _, l := range lines[2:] {
		if k, v, ok := strings.Cut(l, ": "); ok {
			hdr[k] = v
		}
	}
	m, url := lines[0], lines[1]
	if w.httpHook != nil {
		w.httpHook(p, m, url, hdr, body)
	}
	rec := httpRec{method: m, url: url, at: w.now, token: strings.Contains(url, "/token")}
	defer func() { p.res.reqs = append(p.res.reqs, rec) }()
	if strings.HasSuffix(url, "hop=1") && hostOf(url) != "elsewhere.example" {
		return httpResp(0, 307, "text/html\nLocation: https://elsewhere.example"+pathOf(url), "", "", nil)
	}
	delay := int64(0)
	if w.bank.latMax > 0 {
		delay = int64(w.bank.lat.u64() % uint64(w.bank.latMax))
	}
	switch act {
	case "refused", "timeout", "dns":
		return []byte(fmt.Sprintf("%d\n%s\n", arg, act))
	case "reset-before":
		return []byte(fmt.Sprintf("%d\nreset\n", arg))
	case "delay":
		delay += arg
	case "s500":
		return httpResp(arg, 500, "application/json", `{"error":"internal"}`, "", nil)
	case "s503":
		return httpResp(arg, 503, "text/html", "<html>unavailable</html>", "", nil)
	case "s429":
		return httpResp(arg, 429, "application/json", `{"error":"rate limited"}`, "", nil)
	case "s401":
		return httpResp(arg, 401, "application/json", `{"error":"unauthorized"}`, "", nil)
	case "s403":
		rec.status = 403
		return httpResp(arg, 403, "application/json", `{"error":"forbidden"}`, "", nil)
	case "s404":
		return httpResp(arg, 404, "application/json", `{"error":"not found"}`, "", nil)
	case "redir302", "redir307", "redir-plain":
		status := 307
		if act == "redir302" {
			status = 302
		}
		h := hostOf(url)
		_, domain, _ := strings.Cut(h, ".")
		to := "https://" + []string{"elsewhere.example", "evil" + domain, h + ".example", h + "@elsewhere.example", "elsewhere.example/" + h + "/"}[arg%5]
		if act == "redir-plain" {
			to = "http://" + h
		}
		return httpResp(0, status, "text/html\nLocation: "+to+pathOf(url), "", "", nil)
	case "redir-chain": // to the same bank, which sends it away
		q := "?"
		if strings.Contains(url, q) {
			q = "&"
		}
		return httpResp(0, 307, "text/html\nLocation: "+url+q+"hop=1", "", "", nil)
	case "moved": // elsewhere at the same bank
		rec.status = 307
		return httpResp(arg, 307, "text/html\nLocation: "+url, "", "", nil)
	case "anon": // as if asked without credentials
		if strings.Contains(url, "/whoami") {
			return httpResp(0, 200, "application/json", `{"authenticated": false, "client_id": "", "user_id": ""}`, "", nil)
		}
		return httpResp(0, 401, "application/json", `{"authenticated": false}`, "", nil)
	case "garbage":
		return httpResp(0, 200, "application/json", "<html>captive portal</html>", "", nil)
	case "empty":
		return httpResp(0, 200, "application/json", "", "", nil)
	}
	status, ctype, rbody := w.bank.serve(w, m, url, hdr, body)
	rec.status, rec.body = status, rbody
	rec.full = act == "" || act == "delay" || act == "chunks"
	p.w.tracef("p%d   %s %d (%d bytes)", p.id, urlKey(url), status, len(rbody))
	switch act {
	case "newfield":
		if strings.HasPrefix(rbody, "{") {
			rbody = `{"new_field": 1, ` + rbody[1:]
		}
	case "wrongtype": // numbers as strings
		rbody = numberRe.ReplaceAllString(rbody, `: "$1"$2`)
	case "reset-after":
		return []byte(fmt.Sprintf("%d\nreset\n", arg))
	case "eof-after":
		return []byte(fmt.Sprintf("%d\neof\n", arg))
	case "cut":
		if len(rbody) > 0 {
			n := int(arg) % len(rbody)
			return httpResp(delay, status, ctype, rbody[:n], "uneof", nil)
		}
	case "cut-eof": // truncated body that ends cleanly (a proxy cut it off)
		if len(rbody) > 0 {
			n := int(arg) % len(rbody)
			return httpResp(delay, status, ctype, rbody[:n], "", nil)
		}
	case "chunks":
		var cuts []int
		r := newRng(uint64(arg))
		for i := 0; i < 5 && len(rbody) > 1; i++ {
			cuts = append(cuts, 1+r.intn(len(rbody)-1))
		}
		sort.Ints(cuts)
		return httpResp(delay, status, ctype, rbody, "", cuts)
	}
	return httpResp(delay, status, ctype, rbody, "", nil)
}

var numberRe = regexp.MustCompile(`: ?([0-9]+)([,}])`)

func hostOf(u string) string {
	_, r, _ := strings.Cut(u, "://")
	h, _, _ := strings.Cut(r, "/")
	return h
}

func pathOf(u string) string {
	_, r, _ := strings.Cut(u, "://")
	_, p, _ := strings.Cut(r, "/")
	return "/" + p
}

func httpResp(delay int64, status int, ctype, body, bodyErr string, cuts []int) []byte {
	var sb strings.Builder
	sb.WriteString(strconv.FormatInt(delay, 10) + "\n\n" + strconv.Itoa(status) + "\n")
	sb.WriteString("Content-Type: " + ctype + "\n\n")
	sb.WriteString(bodyErr + "\n")
	prev := 0
	var lens []string
	for _, c := range append(cuts, len(body)) {
		if c > prev {
			lens = append(lens, strconv.Itoa(c-prev))
			prev = c
		}
	}
	sb.WriteString(strings.Join(lens, " ") + "\n" + body)
	return []byte(sb.String())
}

func (w *World) listen(p *proc, addr string) (int64, []byte) {
	if w.listenFn == nil {
		return -int64(syscall.EADDRINUSE), nil
	}
	ret, conns := w.listenFn(p, addr)
	if ret < 0 {
		return ret, nil
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d\n", len(conns))
	for _, c := range conns {
		kind := "wait"
		if c.hang {
			kind = "hang"
		}
		if c.abort {
			kind = "abort"
		}
		fmt.Fprintf(&sb, "%d %s", c.at, kind)
		for i := range c.chunks {
			fmt.Fprintf(&sb, " %d:%d", c.delays[i], len(c.chunks[i]))
		}
		sb.WriteString("\n")
		for _, ch := range c.chunks {
			sb.WriteString(ch)
		}
	}
	return ret, []byte(sb.String())
}
