package main

import (
	"encoding/binary"
	"fmt"
	"syscall"
)

// A simulated terminal, and the pager a command may start on it.

type pipe struct {
	buf []byte
}

// pager is a child process that shows what it reads from its standard input. It
// reads as much as fits its buffers, and the rest when it must.
type pager struct {
	pid    int
	name   string
	in     *pipe // nil: not a pipe
	shown  []byte
	alive  bool
	early  bool // its user left before the end of the input
	failed bool
	status int64
}

// termResult is what happened at the terminal.
type termResult struct {
	screen []byte // what it showed, in order
	pagers []*pager
	over   string // what was written over a running pager
	orphan bool   // the command ended while a pager was running
}

const pipeSize = 65536

func (p *proc) ioctl(fd, req int64) (int64, []byte) {
	if p.cmd.Tty == "" || fd < 0 || fd > 2 {
		return -int64(syscall.ENOTTY), nil
	}
	switch req {
	case syscall.TCGETS:
		return 0, make([]byte, 36)
	case syscall.TIOCGWINSZ:
		var cols, rows uint16
		fmt.Sscanf(p.cmd.Tty, "%dx%d", &cols, &rows)
		b := make([]byte, 8)
		binary.LittleEndian.PutUint16(b, rows)
		binary.LittleEndian.PutUint16(b[2:], cols)
		return 0, b
	}
	return -int64(syscall.ENOTTY), nil
}

func (p *proc) makePipe() (int64, []byte) {
	fd := p.nextFd
	for p.fds[fd] != nil || p.fds[fd+1] != nil {
		fd++
	}
	q := &pipe{}
	p.fds[fd] = &vfd{pipe: q, path: "|0"}
	p.fds[fd+1] = &vfd{pipe: q, path: "|1", wr: true, flags: syscall.O_WRONLY}
	return fd, nil
}

// ends counts the descriptors of the process for one end of a pipe.
func (p *proc) ends(q *pipe, wr bool) int {
	n := 0
	for _, v := range p.fds {
		if v.pipe == q && v.wr == wr {
			n++
		}
	}
	return n
}

func (p *proc) running() *pager {
	for _, g := range p.res.term.pagers {
		if g.alive {
			return g
		}
	}
	return nil
}

// onTerminal is called for what the command itself writes on the terminal.
func (p *proc) onTerminal(what string, b []byte) {
	t := &p.res.term
	if p.cmd.Tty == "" {
		return
	}
	if p.running() != nil && t.over == "" {
		t.over = fmt.Sprintf("%s: %q", what, b)
	}
	if what == "standard output" {
		t.screen = append(t.screen, b...)
	}
}

func (p *proc) spawn(path string, stdin int64) (int64, []byte) {
	in := p.w.fs.lookup(cleanPath(p.cwd, path))
	switch {
	case in == nil:
		return -int64(syscall.ENOENT), nil
	case in.dir || in.mode&0111 == 0:
		return -int64(syscall.EACCES), nil
	}
	g := &pager{pid: 50000 + len(p.res.term.pagers), name: path, alive: true}
	if v := p.fds[stdin]; v != nil && v.pipe != nil && !v.wr {
		g.in = v.pipe
	}
	p.res.term.pagers = append(p.res.term.pagers, g)
	return int64(g.pid), nil
}

// reader is the running pager that reads a pipe.
func (p *proc) reader(q *pipe) *pager {
	for _, g := range p.res.term.pagers {
		if g.alive && g.in == q {
			return g
		}
	}
	return nil
}

func (g *pager) take() {
	if g.in != nil {
		g.shown = append(g.shown, g.in.buf...)
		g.in.buf = nil
	}
}

// leave ends a pager: by its user, or failing.
func (p *proc) leave(g *pager, act string, arg int64) {
	g.alive = false
	switch act {
	case "quit":
		g.take()
		g.early = true
	case "killed": // by the command: what has been shown is gone
	case "die":
		g.failed = true
		if arg > 0 && arg < 10 {
			g.take()
		}
		g.status = []int64{1 << 8, 1 << 8, 127 << 8, 9, 1}[arg%5]
	default:
		g.take()
	}
	p.res.term.screen = append(p.res.term.screen, g.shown...)
	p.w.tracef("p%d pager %s: %d bytes shown, status %d", p.id, act, len(g.shown), g.status)
}

func (p *proc) pipeWrite(v *vfd, b []byte, act string, arg int64) (int64, []byte) {
	if !v.wr {
		return -int64(syscall.EBADF), nil
	}
	g := p.reader(v.pipe)
	if g != nil && (act == "quit" || act == "die") {
		p.leave(g, act, arg)
		g = nil
	}
	if g == nil {
		if p.ends(v.pipe, false) == 0 {
			return -int64(syscall.EPIPE), nil
		}
		if len(v.pipe.buf)+len(b) > pipeSize { // nobody reads
			hfail("write to a full pipe that is not read by a child")
		}
		v.pipe.buf = append(v.pipe.buf, b...)
		return int64(len(b)), nil
	}
	v.pipe.buf = append(v.pipe.buf, b...)
	if len(v.pipe.buf) > pipeSize {
		g.take()
	}
	return int64(len(b)), nil
}

func (p *proc) pipeRead(v *vfd, want int64) (int64, []byte) {
	if v.wr {
		return -int64(syscall.EBADF), nil
	}
	b := v.pipe.buf
	if int64(len(b)) > want {
		b = b[:want]
	}
	if len(b) == 0 && p.ends(v.pipe, true) > 0 {
		hfail("read from an empty pipe that is not written by a child")
	}
	v.pipe.buf = v.pipe.buf[len(b):]
	return int64(len(b)), b
}

func (p *proc) waitPager(pid int64, act string, arg int64) (int64, []byte) {
	for _, g := range p.res.term.pagers {
		if int64(g.pid) != pid {
			continue
		}
		if g.alive && (act == "quit" || act == "die") {
			p.leave(g, act, arg)
		}
		if g.alive && g.in != nil && p.ends(g.in, true) > 0 {
			return -int64(syscall.EAGAIN), nil
		}
		if g.alive {
			p.leave(g, "end", 0)
		}
		return g.status, nil
	}
	return -int64(syscall.ECHILD), nil
}

func (p *proc) signalPager(pid, sig int64) (int64, []byte) {
	for _, g := range p.res.term.pagers {
		if int64(g.pid) == pid && g.alive {
			if sig != 0 {
				p.leave(g, "killed", 0)
				g.status = sig & 0x7f
			}
			return 0, nil
		}
	}
	return -int64(syscall.ESRCH), nil
}

// leaveTerminal is called when the command has ended.
func (p *proc) leaveTerminal() {
	for _, g := range p.res.term.pagers {
		if g.alive {
			p.res.term.orphan = true
			p.leave(g, "orphaned", 0)
		}
	}
}
