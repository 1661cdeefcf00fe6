package main

import "strings"

// The catalogue of what may happen at each kind of operation.

type faultMix struct {
	kill, power, errs, http, soft bool // which families a run enables
	jump                          bool
	away                          bool            // redirections and unknown data
	no                            map[string]bool // acts excluded for this property
}

var diskErrs = map[string][]string{
	"open":     {"EIO", "EACCES", "EMFILE", "ENFILE"},
	"openw":    {"ENOSPC", "EACCES", "EIO", "EROFS", "EMFILE"},
	"read":     {"EIO", "ESTALE"},
	"write":    {"ENOSPC", "EIO", "EDQUOT", "EFBIG"},
	"close":    {"EIO", "EDQUOT", "ENOSPC"},
	"fsync":    {"EIO", "EIO-lost", "ENOSPC"},
	"truncate": {"EIO", "ENOSPC"},
	"rename":   {"EIO", "ENOSPC", "EACCES"},
	"link":     {"EIO", "ENOSPC", "EDQUOT"},
	"unlink":   {"EIO", "EACCES"},
	"mkdir":    {"ENOSPC", "EACCES", "EROFS"},
	"stat":     {"EIO", "EACCES"},
	"chmod":    {"EPERM", "EIO"},
	"seek":     {"EIO"},
	"readdir":  {"EIO"},
	"flock":    {"EIO"},
	"stdin":    {"EIO", "ESTALE"},
	"stdout":   {"ENOSPC", "EIO", "EPIPE", "EDQUOT"},
}

// httpFail never delivers a usable answer; the request may or may not have
// reached the bank.
var httpFail = []string{"refused", "timeout", "dns", "reset-before", "reset-after", "eof-after", "s500", "s503", "s429", "s401", "s403", "s404", "garbage", "anon", "empty", "cut", "cut-eof"}

// httpAway answers with a redirection to another host or an unencrypted
// connection, or with data the program does not know.
var httpAway = []string{"redir302", "redir307", "redir-plain", "redir-chain", "newfield", "wrongtype"}

// fateful lists operations whose placement matters most: those on the state.
func weightOp(o opRec, focus []string) int {
	w := 1
	switch o.class {
	case "time", "seek", "readdir":
		w = 1
	case "stat", "mkdir":
		w = 2
	case "http":
		w = 6
	case "stdout", "stderr":
		w = 1
	default:
		w = 4
	}
	for _, f := range focus {
		if f != "" && strings.HasPrefix(o.path, f) {
			w *= 6
			break
		}
	}
	return w
}

// actsFor lists what may happen at an operation under a mix.
func actsFor(o opRec, m faultMix) []string {
	var a []string
	if m.kill {
		a = append(a, "kill-before", "kill-after")
		if o.class == "write" || o.class == "stdout" {
			a = append(a, "torn-kill")
		}
	}
	if m.power {
		a = append(a, "power-before", "power-after")
		if o.class == "write" {
			a = append(a, "torn-power")
		}
	}
	if m.errs {
		a = append(a, diskErrs[o.class]...)
	}
	if m.http && o.class == "http" {
		a = append(a, httpFail...)
	}
	if m.away && o.class == "http" {
		a = append(a, httpAway...)
	}
	if m.soft {
		switch o.class {
		case "read", "write", "stdin", "stdout":
			a = append(a, "short", "EINTR")
		case "open", "openw":
			a = append(a, "EINTR")
		case "http":
			a = append(a, "delay", "chunks", "moved")
		}
	}
	if m.jump && o.class == "time" {
		a = append(a, "jump")
	}
	if len(m.no) > 0 {
		k := 0
		for _, x := range a {
			if !m.no[x] && !m.no[o.class+":"+x] {
				a[k] = x
				k++
			}
		}
		a = a[:k]
	}
	return a
}

func drawFault(r *rng, o opRec, act string) Fault {
	f := Fault{Op: o.class, Path: o.path, Nth: o.nthPath, Act: act}
	switch act {
	case "short", "torn-kill", "torn-power":
		if o.n > 1 {
			f.Arg = int64(1 + r.intn(o.n-1))
			if r.chance(1, 4) {
				f.Arg = 1
			}
		} else {
			f.Arg = 1
		}
	case "power-before", "power-after":
		f.Arg = int64(r.u64() >> 16)
	case "redir302", "redir307":
		f.Arg = int64(r.intn(5))
	case "delay":
		f.Arg = int64(r.intn(3000)) * 1e6
	case "cut", "cut-eof", "chunks":
		f.Arg = int64(r.u64() >> 16)
	case "timeout":
		f.Arg = int64(1+r.intn(30)) * sec
	case "reset-before", "reset-after", "eof-after", "refused":
		f.Arg = int64(r.intn(2000)) * 1e6
	case "jump":
		f.Arg = []int64{1 * sec, -1 * sec, 90 * sec, -90 * sec, hour, -hour, 26 * hour, -26 * hour}[r.intn(8)]
	case "s500", "s503", "s429", "s401", "s403", "s404", "moved":
		f.Arg = int64(r.intn(500)) * 1e6
	}
	if act == "ENOSPC" || act == "EDQUOT" {
		f.Count = []int{1, -1}[r.intn(2)]
	} else if (o.class == "http" && r.chance(1, 5)) && !strings.Contains(act, "kill") && !strings.Contains(act, "power") && act != "delay" && act != "chunks" {
		f.Count = -1
	}
	return f
}

// placeFaults picks faults inside the operations a rehearsal performed.
func placeFaults(r *rng, ops []opRec, m faultMix, focus []string, max int) []Fault {
	if len(ops) == 0 {
		return nil
	}
	n := 1
	for n < max && r.chance(1, 4) {
		n++
	}
	w := make([]int, len(ops))
	for i, o := range ops {
		if len(actsFor(o, m)) > 0 {
			w[i] = weightOp(o, focus)
		}
	}
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return nil
	}
	var out []Fault
	for i := 0; i < n; i++ {
		o := ops[weighted(r, w...)]
		acts := actsFor(o, m)
		out = append(out, drawFault(r, o, acts[r.intn(len(acts))]))
	}
	return out
}

func randomMix(r *rng) faultMix {
	m := faultMix{soft: r.chance(1, 2)}
	for {
		m.kill, m.power, m.errs, m.http = r.chance(1, 2), r.chance(1, 2), r.chance(1, 2), r.chance(1, 2)
		if m.kill || m.power || m.errs || m.http {
			return m
		}
	}
}
