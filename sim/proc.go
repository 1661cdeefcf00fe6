package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Fault is one injected event, placed at the Nth operation of a class (and,
// if given, on a path) of one process.
type Fault struct {
	Op    string `json:"op"`             // operation class, or "any"
	Path  string `json:"path,omitempty"` // normalised path / URL key, "" = any
	Nth   int    `json:"nth"`            // 1-based
	Count int    `json:"count,omitempty"`
	Act   string `json:"act"`
	Arg   int64  `json:"arg,omitempty"`
}

func (f Fault) String() string {
	s := fmt.Sprintf("%s %s #%d: %s", f.Op, f.Path, f.Nth, f.Act)
	if f.Arg != 0 {
		s += fmt.Sprintf("(%d)", f.Arg)
	}
	if f.Count != 0 {
		s += fmt.Sprintf(" x%d", f.Count)
	}
	return s
}

type opRec struct {
	class, path string
	nthAny      int
	nthPath     int
	n           int
}

// Cmd is one invocation of the program.
type Cmd struct {
	Args   []string          `json:"args"`
	Stdin  string            `json:"stdin,omitempty"`
	Env    map[string]string `json:"env,omitempty"`
	Seed   uint64            `json:"seed"` // the process's random stream (map order, temp names, ...)
	Faults []Fault           `json:"faults,omitempty"`
	// Switches-1 is the number of unforced switches between goroutines (0: no limit).
	Switches int `json:"switches,omitempty"`
	// Tty is the size of the terminal ("80x24") the command is used at, "" if at none.
	Tty string `json:"tty,omitempty"`
}

type procResult struct {
	Exit     int
	Signal   bool
	Killed   string // by the simulator: "", "kill", "power"
	Overrun  bool   // exceeded the operation budget
	Stdout   []byte
	Stderr   []byte
	Panic    string
	ops      []opRec
	fired    []string
	hit      []Fault
	steps    int
	Unmod    []int64
	clock    int64 // child's virtual run time
	timeCall []int64
	conns    map[int64]connResult
	yields   int
	reqs     []httpRec // requests made, in order
	term     termResult
}

type httpRec struct {
	method, url string
	at          int64 // true time
	token       bool  // a credential request
	status      int
	body        string
	full        bool // the answer reached the process completely
}

type connResult struct{ kind, data string }

func (r *procResult) ok() bool { return r.Exit == 0 && r.Killed == "" && !r.Overrun && !r.Signal }

type vfd struct {
	ino   int
	off   int64
	flags int
	path  string
	dir   bool
	list  []string
	lpos  int
	pipe  *pipe
	wr    bool // the writing end
}

type request struct {
	op     int64
	a      [4]int64
	s1, s2 []byte
}

type proc struct {
	w       *World
	id      int
	pid     int
	cmd     *Cmd
	p       *os.Process
	reqR    *os.File
	respW   *os.File
	errF    *os.File
	fds     map[int64]*vfd
	nextFd  int64
	cwd     string
	umask   uint32
	stdinOf int
	start   int64
	lastNow int64
	res     *procResult
	counts  map[string]int
	any     int
	rand    *rng
	pending *request
	dead    bool
	conc    *concState
}

type harnessError struct{ msg string }

func (e *harnessError) Error() string { return e.msg }

func hfail(format string, a ...any) { panic(&harnessError{fmt.Sprintf(format, a...)}) }

func startProc(w *World, cmd *Cmd, bin string) *proc {
	w.pid++
	p := &proc{w: w, id: w.pid, pid: w.pid, cmd: cmd, fds: map[int64]*vfd{}, nextFd: 10000, cwd: w.cwd, umask: 022,
		counts: map[string]int{}, rand: newRng(cmd.Seed ^ 0x5bd1e995), res: &procResult{conns: map[int64]connResult{}}, start: w.now}
	reqR, reqW, err := os.Pipe()
	if err != nil {
		hfail("pipe: %v", err)
	}
	respR, respW, err := os.Pipe()
	if err != nil {
		hfail("pipe: %v", err)
	}
	p.errF = w.errFile()
	env := []string{"GOSIM=1", fmt.Sprintf("GOSIM_RAND=%d", cmd.Seed), "GOGC=off", "GOMEMLIMIT=700MiB", "GODEBUG=asyncpreemptoff=1", "GOMAXPROCS=1", w.zoneEnv()}
	if _, ok := cmd.Env["HOME"]; !ok {
		env = append(env, "HOME=/home/u")
	}
	for _, k := range sortedKeys(cmd.Env) {
		env = append(env, k+"="+cmd.Env[k])
	}
	proc, err := os.StartProcess(bin, append([]string{"goledger"}, cmd.Args...), &os.ProcAttr{
		Dir: "/", Env: env,
		Files: []*os.File{w.devnull, w.devnull, p.errF, reqW, respR},
	})
	reqW.Close()
	respR.Close()
	if err != nil {
		hfail("starting %s: %v", bin, err)
	}
	lim := [2]uint64{3 << 30, 3 << 30}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(proc.Pid), syscall.RLIMIT_DATA, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
	p.p, p.reqR, p.respW = proc, reqR, respW
	w.tracef("p%d start %s seed=%d t=%s", p.id, strings.Join(cmd.Args, " "), cmd.Seed, time.Unix(0, w.now+w.skew).UTC().Format(time.RFC3339))
	return p
}

// hangLimit bounds the real time a process may go without making a request;
// exceeding it is reported as an error of the harness, not a verdict. But a
// process that computes for spinLimit of processor time (usual is a millisecond)
// without a request is one that does not end.
const hangLimit = 90 * time.Second

var spinLimit atomic.Int64 // milliseconds; short once a process was found spinning

func init() { spinLimit.Store(20000) }

// cpuTime is the processor time in milliseconds a process has used.
func (p *proc) cpuTime() int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", p.p.Pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	v, _ := strconv.ParseInt(f[12], 10, 64)
	return (u + v) * 10
}

// next waits for the process's next request; nil when it has exited.
func (p *proc) next() *request {
	var h [64]byte
	got, cpu0 := 0, int64(-1)
	for t0 := time.Now(); got < len(h); {
		p.reqR.SetReadDeadline(time.Now().Add(2 * time.Second))
		n, err := p.reqR.Read(h[got:])
		got += n
		if err == nil {
			continue
		}
		if !os.IsTimeout(err) {
			p.reap()
			return nil
		}
		cpu := p.cpuTime()
		if cpu0 < 0 {
			cpu0 = cpu
		}
		if cpu-cpu0 > spinLimit.Load() {
			spinLimit.Store(3000)
			p.res.Overrun = true
			p.w.tracef("p%d computes without end", p.id)
			p.res.Killed = "overrun"
			p.kill()
			return nil
		}
		if time.Since(t0) > hangLimit {
			p.kill()
			hfail("process did not make progress within %v: %v", hangLimit, p.cmd.Args)
		}
	}
	p.reqR.SetReadDeadline(time.Now().Add(hangLimit))
	le := binary.LittleEndian
	r := &request{op: int64(le.Uint64(h[0:]))}
	for i := range r.a {
		r.a[i] = int64(le.Uint64(h[8+8*i:]))
	}
	n1, n2 := le.Uint64(h[40:]), le.Uint64(h[48:])
	if n1 > 1<<28 || n2 > 1<<28 {
		hfail("oversized request %d %d", n1, n2)
	}
	if n1 > 0 {
		r.s1 = make([]byte, n1)
		if _, err := io.ReadFull(p.reqR, r.s1); err != nil {
			p.reap()
			return nil
		}
	}
	if n2 > 0 {
		r.s2 = make([]byte, n2)
		if _, err := io.ReadFull(p.reqR, r.s2); err != nil {
			p.reap()
			return nil
		}
	}
	if r.op == 1300 { // a statement is executed for the first time (cover.go)
		coverHits.Store(r.a[0], true)
		p.reply(0, nil)
		return p.next()
	}
	return r
}

func (p *proc) reply(ret int64, out []byte) {
	b := make([]byte, 24+len(out))
	binary.LittleEndian.PutUint64(b, uint64(ret))
	binary.LittleEndian.PutUint64(b[8:], uint64(len(out)))
	copy(b[24:], out)
	if _, err := p.respW.Write(b); err != nil {
		// The process died while we answered; noticed at the next read.
		return
	}
}

func (p *proc) reap() {
	if p.dead {
		return
	}
	p.dead = true
	st, err := p.p.Wait()
	if err != nil {
		hfail("wait: %v", err)
	}
	p.reqR.Close()
	p.respW.Close()
	ws := st.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		p.res.Signal = true
		p.res.Exit = 128 + int(ws.Signal())
	} else {
		p.res.Exit = ws.ExitStatus()
	}
	if p.res.Exit == 119 && p.res.Killed == "" {
		hfail("process lost its link to the simulator")
	}
	p.leaveTerminal()
	p.errF.Seek(0, 0)
	b, _ := io.ReadAll(p.errF)
	if len(b) > 0 {
		s := string(b)
		if i := strings.Index(s, "\n\ngoroutine "); i >= 0 {
			s = s[:i]
		}
		p.res.Panic = s
	}
	p.w.putErrFile(p.errF)
	p.res.clock = p.lastNow
	if t := p.start + p.lastNow; t > p.w.now {
		p.w.now = t
	}
	why := ""
	if p.res.Killed != "" {
		why = " (" + p.res.Killed + ")"
	}
	p.w.tracef("p%d exit %d%s %s", p.id, p.res.Exit, why, firstLine(p.res.Panic))
}

func (p *proc) kill() {
	p.p.Signal(syscall.SIGKILL)
	p.reap()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var digitRun = regexp.MustCompile(`[0-9]{3,}`)

func normPath(p string) string { return digitRun.ReplaceAllString(p, "#") }

var errnoByName = map[string]syscall.Errno{
	"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EDQUOT": syscall.EDQUOT, "EINTR": syscall.EINTR,
	"EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE, "ENOENT": syscall.ENOENT, "EROFS": syscall.EROFS,
	"ENOMEM": syscall.ENOMEM, "EPERM": syscall.EPERM, "EPIPE": syscall.EPIPE, "EISDIR": syscall.EISDIR,
	"EFBIG": syscall.EFBIG, "EAGAIN": syscall.EAGAIN, "EADDRINUSE": syscall.EADDRINUSE, "ENFILE": syscall.ENFILE, "ENOEXEC": syscall.ENOEXEC, "ESTALE": syscall.ESTALE,
}

// match counts the operation and returns the fault placed on it, if any.
func (p *proc) match(class, path string, n int) *Fault {
	p.any++
	kc := class
	kp := class + "\x00" + path
	p.counts[kc]++
	p.counts[kp]++
	p.res.ops = append(p.res.ops, opRec{class, path, p.any, p.counts[kp], n})
	for i := range p.cmd.Faults {
		f := &p.cmd.Faults[i]
		var c int
		switch {
		case f.Op == "any":
			c = p.any
		case f.Op != class:
			continue
		case f.Path == "":
			c = p.counts[kc]
		case f.Path == path:
			c = p.counts[kp]
		default:
			continue
		}
		cnt := f.Count
		if cnt == 0 {
			cnt = 1
		}
		if c >= f.Nth && (cnt < 0 || c < f.Nth+cnt) {
			p.res.fired = append(p.res.fired, f.Act)
			p.res.hit = append(p.res.hit, *f)
			p.w.stats.fault(class, f.Act)
			return f
		}
	}
	return nil
}

type killSignal struct{ kind string }

// handle decides one request. It returns false when the process was killed.
func (p *proc) handle(r *request) (alive bool) {
	w := p.w
	p.res.steps++
	if p.res.steps > w.maxOps {
		p.res.Overrun = true
		w.tracef("p%d operation budget exceeded", p.id)
		p.res.Killed = "overrun"
		p.kill()
		return false
	}
	class, path, desc, n := p.describe(r)
	var f *Fault
	if class != "" {
		f = p.match(class, path, n)
	}
	power := func(arg int64) {
		w.tracef("p%d POWER LOSS at %s", p.id, desc)
		p.res.Killed = "power"
		w.powered = true
		w.powerSeed = uint64(arg)
		p.kill()
	}
	kill := func() {
		w.tracef("p%d KILL at %s", p.id, desc)
		p.res.Killed = "kill"
		p.kill()
	}
	after := ""
	var afterArg int64
	var inj syscall.Errno
	short := int64(-1)
	httpAct := ""
	var httpArg int64
	lost := false
	if f != nil {
		switch f.Act {
		case "kill-before":
			kill()
			return false
		case "power-before":
			power(f.Arg)
			return false
		case "kill-after", "power-after":
			after, afterArg = f.Act, f.Arg
		case "torn-kill":
			short, after = f.Arg, "kill-after"
		case "torn-power":
			short, after, afterArg = f.Arg, "power-after", f.Arg*7+1
		case "short":
			short = f.Arg
		case "jump":
			w.skew += f.Arg
			w.tracef("clock jump %v", time.Duration(f.Arg))
		case "edit":
			if w.editFn != nil {
				w.editFn(p, f.Arg)
			}
		case "EIO-lost":
			inj, lost = syscall.EIO, true
		default:
			if e, ok := errnoByName[f.Act]; ok {
				inj = e
			} else {
				httpAct, httpArg = f.Act, f.Arg
			}
		}
	}
	var ret int64
	var out []byte
	if inj != 0 && class != "http" {
		ret = -int64(inj)
		if lost {
			if v := p.fds[r.a[0]]; v != nil {
				if in := w.fs.inodes[v.ino]; in != nil {
					w.fs.setData(in, in.durable)
				}
			}
		}
		if class == "close" {
			delete(p.fds, r.a[0])
		}
	} else {
		ret, out = p.exec(r, short, httpAct, httpArg)
		if p.dead {
			return false
		}
	}
	if class != "" {
		if w.mutHook != nil {
			switch class {
			case "write", "openw", "truncate", "rename", "link", "unlink", "fsync", "close":
				w.mutHook(p, class)
			}
		}
		if f != nil {
			w.tracef("p%d %s -> %d  [%s]", p.id, desc, ret, f.Act)
		} else {
			w.tracef("p%d %s -> %d", p.id, desc, ret)
		}
	}
	switch after {
	case "kill-after":
		kill()
		return false
	case "power-after":
		power(afterArg)
		return false
	}
	p.reply(ret, out)
	return true
}

var hexAddr = regexp.MustCompile(`0x[0-9a-f]+|goroutine [0-9]+`)

// noAddrs leaves the addresses out of a stack trace: where an object lies in
// memory is the one thing about a run that is not decided by its seed, and
// nothing the checks look at.
func noAddrs(s string) string {
	if !strings.Contains(s, "0x") {
		return s
	}
	return hexAddr.ReplaceAllString(s, "0x?")
}

// describe classifies a request for fault placement and the trace.
func (p *proc) describe(r *request) (class, path, desc string, n int) {
	fdPath := func() string {
		if v := p.fds[r.a[0]]; v != nil {
			return v.path
		}
		return fmt.Sprintf("fd%d", r.a[0])
	}
	full := func(s []byte) string { return cleanPath(p.cwd, string(s)) }
	switch r.op {
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		if r.a[0] == 0 {
			return "stdin", "", fmt.Sprintf("read stdin %d", r.a[1]), int(r.a[1])
		}
		class, path = "read", fdPath()
		n = int(r.a[1])
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		n = len(r.s1)
		if r.a[0] == 1 {
			return "stdout", "", fmt.Sprintf("write stdout %d", n), n
		}
		if r.a[0] == 2 {
			return "stderr", "", fmt.Sprintf("write stderr %q", noAddrs(string(r.s1))), n
		}
		class, path = "write", fdPath()
		if v := p.fds[r.a[0]]; v != nil && v.pipe != nil {
			class = "pipew"
		}
	case syscall.SYS_CLOSE:
		class, path = "close", fdPath()
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, syscall.SYS_SYNC_FILE_RANGE, syscall.SYS_SYNC:
		class, path = "fsync", fdPath()
	case syscall.SYS_FTRUNCATE, syscall.SYS_FALLOCATE:
		class, path = "truncate", fdPath()
	case syscall.SYS_TRUNCATE:
		class, path = "truncate", full(r.s1)
	case syscall.SYS_LSEEK:
		class, path = "seek", fdPath()
	case syscall.SYS_FSTAT:
		class, path = "stat", fdPath()
	case syscall.SYS_NEWFSTATAT, syscall.SYS_READLINKAT, syscall.SYS_FACCESSAT, 439:
		class, path = "stat", full(r.s1)
	case syscall.SYS_GETDENTS64:
		class, path = "readdir", fdPath()
	case syscall.SYS_OPENAT:
		class, path = "open", full(r.s1)
		if r.a[1]&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
			class = "openw"
		}
	case syscall.SYS_MKDIRAT, syscall.SYS_MKDIR:
		class, path = "mkdir", full(r.s1)
	case syscall.SYS_UNLINKAT, syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		class, path = "unlink", full(r.s1)
	case syscall.SYS_RENAMEAT, 316, syscall.SYS_RENAME:
		class, path = "rename", full(r.s2)
	case syscall.SYS_LINKAT, syscall.SYS_LINK:
		class, path = "link", full(r.s2)
	case syscall.SYS_SYMLINKAT, syscall.SYS_SYMLINK:
		class, path = "rename", full(r.s2)
	case syscall.SYS_FCHMOD:
		class, path = "chmod", fdPath()
	case syscall.SYS_FCHMODAT, 452, syscall.SYS_CHMOD, syscall.SYS_UTIMENSAT, syscall.SYS_FCHOWNAT, syscall.SYS_FCHOWN:
		class, path = "chmod", full(r.s1)
	case syscall.SYS_FLOCK:
		class, path = "flock", fdPath()
	case 1001:
		return "time", "", "time", 0
	case 1010:
		l := strings.SplitN(string(r.s1), "\n", 3)
		k := urlKey(l[1])
		return "http", l[0] + " " + k, "http " + l[0] + " " + l[1], 0
	case 1030:
		return "pipe", "", "pipe", 0
	case 1031:
		return "spawn", string(r.s1), "start " + string(r.s1), 0
	case 1032:
		return "wait", "", "wait", 0
	case 1020:
		return "listen", string(r.s1), "listen " + string(r.s1), 0
	case 1021:
		return "", "", "", 0
	default:
		return "", "", "", 0
	}
	if isZonePath(path) {
		return "", "", "", 0
	}
	desc = fmt.Sprintf("%s %s", class, path)
	if n > 0 {
		desc += fmt.Sprintf(" %d", n)
	}
	path = normPath(path)
	return
}

// urlKey drops the query so that faults address an endpoint.
func urlKey(u string) string {
	u = strings.TrimPrefix(u, "https://")
	u = strings.TrimPrefix(u, "http://")
	if i := strings.IndexByte(u, '?'); i >= 0 {
		u = u[:i]
	}
	return u
}

func (p *proc) wall() int64 { return p.start + p.lastNow + p.w.skew }

func (p *proc) exec(r *request, short int64, httpAct string, httpArg int64) (int64, []byte) {
	w := p.w
	fs := w.fs
	fs.now = w.now + w.skew
	full := func(s []byte) string { return cleanPath(p.cwd, string(s)) }
	errno := func(e syscall.Errno) (int64, []byte) { return -int64(e), nil }
	if v := p.fds[r.a[0]]; v != nil && v.pipe != nil {
		switch r.op {
		case syscall.SYS_LSEEK, syscall.SYS_PREAD64, syscall.SYS_PWRITE64:
			return errno(syscall.ESPIPE)
		case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, syscall.SYS_SYNC_FILE_RANGE, syscall.SYS_FTRUNCATE, syscall.SYS_FALLOCATE, syscall.SYS_FCHMOD, syscall.SYS_GETDENTS64:
			return errno(syscall.EINVAL)
		}
	}
	switch r.op {
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		want := r.a[1]
		if short >= 0 && short < want {
			want = short
		}
		if r.a[0] == 0 {
			b := p.cmd.Stdin[p.stdinOf:]
			if int64(len(b)) > want {
				b = b[:want]
			}
			p.stdinOf += len(b)
			return int64(len(b)), []byte(b)
		}
		v := p.fds[r.a[0]]
		if v == nil {
			return errno(syscall.EBADF)
		}
		if v.pipe != nil {
			return p.pipeRead(v, want)
		}
		in := fs.inodes[v.ino]
		if in.dir {
			return errno(syscall.EISDIR)
		}
		off := v.off
		if r.op == syscall.SYS_PREAD64 {
			off = r.a[2]
		}
		if off > int64(len(in.data)) {
			off = int64(len(in.data))
		}
		b := in.data[off:]
		if int64(len(b)) > want {
			b = b[:want]
		}
		if r.op == syscall.SYS_READ {
			v.off = off + int64(len(b))
		}
		return int64(len(b)), b
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		b := r.s1
		if short >= 0 && short < int64(len(b)) {
			b = b[:short]
		}
		if r.a[0] == 1 {
			p.onTerminal("standard output", b)
			p.res.Stdout = append(p.res.Stdout, b...)
			return int64(len(b)), nil
		}
		if r.a[0] == 2 {
			p.onTerminal("standard error", b)
			p.res.Stderr = append(p.res.Stderr, b...)
			return int64(len(b)), nil
		}
		v := p.fds[r.a[0]]
		if v != nil && v.pipe != nil {
			return p.pipeWrite(v, b, httpAct, httpArg)
		}
		if v == nil || v.flags&3 == syscall.O_RDONLY {
			return errno(syscall.EBADF)
		}
		in := fs.inodes[v.ino]
		off := v.off
		if v.flags&syscall.O_APPEND != 0 {
			off = int64(len(in.data))
		}
		if r.op == syscall.SYS_PWRITE64 {
			off = r.a[1]
		}
		n, e := fs.pwrite(in, off, b)
		if e != 0 {
			return errno(e)
		}
		if r.op == syscall.SYS_WRITE {
			v.off = off + int64(n)
		}
		w.onWrite(p, v.path)
		return int64(n), nil
	case syscall.SYS_CLOSE:
		if _, ok := p.fds[r.a[0]]; !ok {
			if r.a[0] <= 2 {
				return 0, nil
			}
			return errno(syscall.EBADF)
		}
		delete(p.fds, r.a[0])
		return 0, nil
	case syscall.SYS_SYNC:
		fs.syncAll()
		return 0, nil
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, syscall.SYS_SYNC_FILE_RANGE:
		v := p.fds[r.a[0]]
		if v == nil {
			return errno(syscall.EBADF)
		}
		fs.fsync(fs.inodes[v.ino])
		return 0, nil
	case syscall.SYS_FTRUNCATE, syscall.SYS_FALLOCATE:
		v := p.fds[r.a[0]]
		if v == nil {
			return errno(syscall.EBADF)
		}
		if r.op == syscall.SYS_FALLOCATE {
			return errno(syscall.EOPNOTSUPP)
		}
		fs.truncate(fs.inodes[v.ino], r.a[1])
		w.onWrite(p, v.path)
		return 0, nil
	case syscall.SYS_TRUNCATE:
		rp, e := fs.resolve(full(r.s1), false)
		if e != 0 {
			return errno(e)
		}
		in := fs.lookup(rp)
		if in == nil {
			return errno(syscall.ENOENT)
		}
		fs.truncate(in, r.a[0])
		w.onWrite(p, rp)
		return 0, nil
	case syscall.SYS_LSEEK:
		v := p.fds[r.a[0]]
		if v == nil {
			if r.a[0] <= 2 {
				return errno(syscall.ESPIPE)
			}
			return errno(syscall.EBADF)
		}
		switch r.a[2] {
		case 0:
			v.off = r.a[1]
		case 1:
			v.off += r.a[1]
		case 2:
			v.off = int64(len(fs.inodes[v.ino].data)) + r.a[1]
		}
		if v.dir {
			v.lpos = int(v.off)
			v.list = nil
		}
		return v.off, nil
	case syscall.SYS_FCHMOD:
		v := p.fds[r.a[0]]
		if v == nil {
			return errno(syscall.EBADF)
		}
		fs.inodes[v.ino].mode = uint32(r.a[1]) & 07777
		return 0, nil
	case syscall.SYS_FCHOWN, syscall.SYS_FCHOWNAT, syscall.SYS_UTIMENSAT:
		return 0, nil
	case syscall.SYS_FCHMODAT, 452, syscall.SYS_CHMOD:
		rp, e := fs.resolve(full(r.s1), false)
		if e != 0 {
			return errno(e)
		}
		in := fs.lookup(rp)
		if in == nil {
			return errno(syscall.ENOENT)
		}
		m := r.a[1]
		if r.op == syscall.SYS_CHMOD {
			m = r.a[0]
		}
		in.mode = uint32(m) & 07777
		return 0, nil
	case syscall.SYS_FLOCK:
		return p.flock(r.a[0], r.a[1])
	case syscall.SYS_FSTAT:
		if r.a[0] <= 2 && p.cmd.Tty != "" {
			return 0, devStatBytes(syscall.S_IFCHR | 0620)
		}
		v := p.fds[r.a[0]]
		if r.a[0] <= 2 || v != nil && v.pipe != nil {
			return 0, devStatBytes(syscall.S_IFIFO | 0600)
		}
		if v == nil {
			return errno(syscall.EBADF)
		}
		return 0, fs.statBytes(fs.inodes[v.ino])
	case syscall.SYS_NEWFSTATAT, syscall.SYS_FACCESSAT, 439, syscall.SYS_ACCESS:
		nofollow := r.op == syscall.SYS_NEWFSTATAT && r.a[1]&0x100 != 0
		rp, e := fs.resolve(full(r.s1), nofollow)
		if e != 0 {
			return errno(e)
		}
		in := fs.lookup(rp)
		if in == nil {
			return errno(syscall.ENOENT)
		}
		if r.op != syscall.SYS_NEWFSTATAT {
			return 0, nil
		}
		return 0, fs.statBytes(in)
	case syscall.SYS_READLINKAT:
		rp, e := fs.resolve(full(r.s1), true)
		if e != 0 {
			return errno(e)
		}
		in := fs.lookup(rp)
		if in == nil {
			return errno(syscall.ENOENT)
		}
		if in.link == "" {
			return errno(syscall.EINVAL)
		}
		b := []byte(in.link)
		if int64(len(b)) > r.a[1] {
			b = b[:r.a[1]]
		}
		return int64(len(b)), b
	case syscall.SYS_GETDENTS64:
		v := p.fds[r.a[0]]
		if v == nil {
			return errno(syscall.EBADF)
		}
		if !v.dir {
			return errno(syscall.ENOTDIR)
		}
		if v.list == nil {
			v.list = fs.list(v.path)
		}
		b := direntBytes(v.list, fs, v.path, &v.lpos, int(r.a[1]))
		return int64(len(b)), b
	case syscall.SYS_OPENAT:
		return p.open(full(r.s1), int(r.a[1]), uint32(r.a[2]))
	case syscall.SYS_MKDIRAT, syscall.SYS_MKDIR:
		m := uint32(r.a[1])
		pp := full(r.s1)
		dir, e := fs.resolve(dirOf(pp), false)
		if e != 0 {
			return errno(e)
		}
		pp = joinPath(dir, baseOf(pp))
		d := fs.lookup(dir)
		if d == nil {
			return errno(syscall.ENOENT)
		}
		if !d.dir {
			return errno(syscall.ENOTDIR)
		}
		if fs.lookup(pp) != nil {
			return errno(syscall.EEXIST)
		}
		fs.create(pp, true, m&^p.umask&07777)
		return 0, nil
	case syscall.SYS_UNLINKAT, syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		rp, e := fs.resolve(full(r.s1), true)
		if e != 0 {
			return errno(e)
		}
		in := fs.lookup(rp)
		if in == nil {
			return errno(syscall.ENOENT)
		}
		rmdir := r.op == syscall.SYS_RMDIR || (r.op == syscall.SYS_UNLINKAT && r.a[1]&0x200 != 0)
		if rmdir {
			if !in.dir {
				return errno(syscall.ENOTDIR)
			}
			if len(fs.list(rp)) > 0 {
				return errno(syscall.ENOTEMPTY)
			}
		} else if in.dir {
			return errno(syscall.EISDIR)
		}
		if fs.free >= 0 {
			fs.free += int64(len(in.data))
		}
		delete(fs.names, rp)
		fs.addJournal(nsop{kind: "unlink", a: rp})
		w.onWrite(p, rp)
		return 0, nil
	case syscall.SYS_RENAMEAT, 316, syscall.SYS_RENAME:
		return p.rename(full(r.s1), full(r.s2), r.op == 316 && r.a[2]&1 != 0)
	case syscall.SYS_LINKAT, syscall.SYS_LINK:
		a, e := fs.resolve(full(r.s1), true)
		if e != 0 {
			return errno(e)
		}
		in := fs.lookup(a)
		if in == nil {
			return errno(syscall.ENOENT)
		}
		d, e := fs.resolve(dirOf(full(r.s2)), false)
		if e != 0 {
			return errno(e)
		}
		b := joinPath(d, baseOf(full(r.s2)))
		if fs.lookup(b) != nil {
			return errno(syscall.EEXIST)
		}
		fs.names[b] = in.id
		fs.addJournal(nsop{kind: "link", a: b, ino: in.id})
		w.onWrite(p, b)
		return 0, nil
	case syscall.SYS_SYMLINKAT, syscall.SYS_SYMLINK:
		d, e := fs.resolve(dirOf(full(r.s2)), false)
		if e != 0 {
			return errno(e)
		}
		b := joinPath(d, baseOf(full(r.s2)))
		if fs.lookup(b) != nil {
			return errno(syscall.EEXIST)
		}
		in := fs.create(b, false, 0777)
		in.link = string(r.s1)
		return 0, nil
	case syscall.SYS_GETCWD:
		b := append([]byte(p.cwd), 0)
		return int64(len(b)), b
	case syscall.SYS_CHDIR:
		p.cwd = full(r.s1)
		return 0, nil
	case syscall.SYS_IOCTL:
		return p.ioctl(r.a[0], r.a[1])
	case 1030:
		return p.makePipe()
	case 1031:
		return p.spawn(string(r.s1), r.a[0])
	case 1032:
		p.lastNow = r.a[2]
		return p.waitPager(r.a[0], httpAct, httpArg)
	case 1033:
		return p.signalPager(r.a[0], r.a[1])
	case 999:
		p.res.Unmod = append(p.res.Unmod, r.a[0])
		w.stats.unmodelled(r.a[0])
		w.tracef("p%d unmodelled system call %d refused", p.id, r.a[0])
		return errno(syscall.ENOSYS)
	case 1001: // clock
		p.lastNow = r.a[2]
		t := p.wall()
		p.res.timeCall = append(p.res.timeCall, t)
		return t, nil
	case 1002:
		b := make([]byte, r.a[0])
		for i := range b {
			b[i] = byte(p.rand.u64())
		}
		return int64(len(b)), b
	case 1003:
		return int64(p.pid), nil
	case 1010:
		p.lastNow = r.a[2]
		if t := p.start + p.lastNow; t > w.now {
			w.now = t
		}
		return 0, w.http(p, r.s1, httpAct, httpArg)
	case 1020:
		p.lastNow = r.a[2]
		return w.listen(p, string(r.s1))
	case 1021:
		p.lastNow = r.a[2]
		kind, data, _ := strings.Cut(string(r.s1), "\n")
		p.res.conns[r.a[0]] = connResult{kind, data}
		w.tracef("p%d conn %d %s %d bytes", p.id, r.a[0], kind, len(data))
		return 0, nil
	case 1022:
		p.lastNow = r.a[2]
		w.tracef("p%d all clients served", p.id)
		p.res.Killed = "done"
		p.kill()
		return 0, nil
	}
	if r.op >= 1100 {
		return p.execConc(r)
	}
	hfail("unhandled request %d", r.op)
	return 0, nil
}

func dirOf(p string) string {
	i := strings.LastIndexByte(p, '/')
	if i <= 0 {
		return "/"
	}
	return p[:i]
}
func baseOf(p string) string { return p[strings.LastIndexByte(p, '/')+1:] }
func joinPath(d, b string) string {
	if d == "/" {
		return "/" + b
	}
	return d + "/" + b
}

func (p *proc) open(pp string, flags int, mode uint32) (int64, []byte) {
	fs := p.w.fs
	acc := flags & 3
	rp, e := fs.resolve(pp, flags&syscall.O_NOFOLLOW != 0 || flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL)
	if e != 0 {
		return -int64(e), nil
	}
	in := fs.lookup(rp)
	created := false
	if in == nil {
		if flags&syscall.O_CREAT == 0 {
			return -int64(syscall.ENOENT), nil
		}
		d := fs.lookup(dirOf(rp))
		if d == nil {
			return -int64(syscall.ENOENT), nil
		}
		if !d.dir {
			return -int64(syscall.ENOTDIR), nil
		}
		in = fs.create(rp, false, mode&^p.umask&07777)
		created = true
	} else {
		if flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
			return -int64(syscall.EEXIST), nil
		}
		if in.dir && acc != syscall.O_RDONLY {
			return -int64(syscall.EISDIR), nil
		}
		if !in.dir && flags&syscall.O_DIRECTORY != 0 {
			return -int64(syscall.ENOTDIR), nil
		}
		if flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY && len(in.data) > 0 {
			fs.truncate(in, 0)
			p.w.onWrite(p, rp)
		}
	}
	fd := p.nextFd
	for {
		if _, ok := p.fds[fd]; !ok {
			break
		}
		fd++
	}
	p.fds[fd] = &vfd{ino: in.id, flags: flags, path: rp, dir: in.dir}
	if created {
		p.w.onWrite(p, rp)
	}
	return fd, nil
}

func (p *proc) rename(a, b string, noreplace bool) (int64, []byte) {
	fs := p.w.fs
	a, e := fs.resolve(a, true)
	if e != 0 {
		return -int64(e), nil
	}
	b, e = fs.resolve(b, true)
	if e != 0 {
		return -int64(e), nil
	}
	in := fs.lookup(a)
	if in == nil {
		return -int64(syscall.ENOENT), nil
	}
	if d := fs.lookup(dirOf(b)); d == nil || !d.dir {
		return -int64(syscall.ENOENT), nil
	}
	if t := fs.lookup(b); t != nil {
		if noreplace {
			return -int64(syscall.EEXIST), nil
		}
		if t == in {
			return 0, nil
		}
		if t.dir && !in.dir {
			return -int64(syscall.EISDIR), nil
		}
		if !t.dir && in.dir {
			return -int64(syscall.ENOTDIR), nil
		}
		if fs.free >= 0 {
			fs.free += int64(len(t.data))
		}
	}
	o := nsop{kind: "rename", a: a, b: b}
	applyNS(fs.names, o)
	fs.addJournal(o)
	for _, v := range p.fds {
		if v.path == a {
			v.path = b
		}
	}
	p.w.onWrite(p, a)
	p.w.onWrite(p, b)
	return 0, nil
}

// flock: advisory locks between simulated processes. A conflicting request
// blocks the process (it is not scheduled until the lock is free).
func (p *proc) flock(fd, how int64) (int64, []byte) {
	v := p.fds[fd]
	if v == nil {
		return -int64(syscall.EBADF), nil
	}
	return 0, nil
}
