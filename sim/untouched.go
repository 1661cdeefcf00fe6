package main

import (
	"bytes"
	"fmt"
	"strings"
)

// The property U01: commands change no file but their own. A watch compares
// all files after every change of the disk and at the end of the commands.

type untouched struct {
	before map[string]fileInfo
	state  string // the state file of a download, "" for other commands
	mode   uint32 // its permissions, if it existed
	had    bool
	v      *Violation
}

type fileInfo struct {
	ino  int
	mode uint32
	dir  bool
	link string
	data []byte
}

func snapshot(fs *vfs) map[string]fileInfo {
	m := map[string]fileInfo{}
	for p, id := range fs.names {
		in := fs.inodes[id]
		m[p] = fileInfo{id, in.mode, in.dir, in.link, in.data}
	}
	return m
}

func watchFiles(w *World, state string, had bool) *untouched {
	u := &untouched{before: snapshot(w.fs), state: state, had: had}
	if had {
		u.mode = u.before[state].mode
	}
	w.mutHook = func(p *proc, class string) {
		if u.v == nil {
			u.v = u.check(w.fs, "while the command runs", false)
		}
	}
	return u
}

// temp tells whether a file the command makes may be its temporary copy of the state.
func (u *untouched) temp(p string) bool {
	return u.state != "" && dirOf(p) == dirOf(u.state)
}

func (u *untouched) check(fs *vfs, when string, clean bool) *Violation {
	now := snapshot(fs)
	for _, p := range sortedKeys(u.before) {
		if p == u.state {
			continue
		}
		b := u.before[p]
		n, ok := now[p]
		if !ok {
			return viol("file-removed", "%s: %s is gone", when, p)
		}
		if b.dir {
			continue
		}
		if n.link != b.link || n.dir {
			return viol("file-replaced", "%s: %s is not what it was", when, p)
		}
		if !bytes.Equal(n.data, b.data) {
			return viol("file-changed", "%s: the contents of %s changed: %s", when, p, diffText(b.data, n.data))
		}
		if n.mode != b.mode {
			return viol("mode-changed", "%s: the permissions of %s changed from %o to %o", when, p, b.mode, n.mode)
		}
	}
	for _, p := range sortedKeys(now) {
		n := now[p]
		if _, ok := u.before[p]; ok && p != u.state {
			continue
		}
		if p == u.state {
			if n.dir || n.link != "" {
				return viol("file-replaced", "%s: the state file is not a file any more", when)
			}
			if u.had && n.mode != u.mode {
				return viol("state-mode", "%s: the permissions of the state file changed from %o to %o", when, u.mode, n.mode)
			}
			continue
		}
		if n.dir && (u.state == "" || !strings.HasPrefix(u.state, p+"/")) || !n.dir && !u.temp(p) {
			return viol("file-created", "%s: %s was created", when, p)
		}
		if n.dir {
			continue
		}
		if clean {
			return viol("file-left", "%s: the temporary file %s was left behind", when, p)
		}
		if u.had && len(n.data) > 0 && n.mode&^u.mode&0077 != 0 {
			return viol("copy-readable", "%s: %s with bank data has permissions %o, the state file %o", when, p, n.mode, u.mode)
		}
	}
	return nil
}

func (u *untouched) end(w *World, rs []*procResult) *Violation {
	w.mutHook = nil
	if u.v != nil {
		return u.v
	}
	clean := true
	for _, r := range rs {
		if r.Killed != "" || r.Overrun || r.Signal {
			clean = false // it could not tidy up
		}
		for _, f := range r.hit {
			if f.Op == "unlink" || f.Op == "any" {
				clean = false
			}
		}
	}
	return u.check(w.fs, fmt.Sprintf("after the command (%s)", outcome(rs[0])), clean)
}

// bystanders are files of the user around the state file, with names that a
// program may be tempted to use.
func (s *Sync) bystanders(w *World) {
	base := strings.TrimSuffix(s.path, ".gz")
	names := []string{s.path + ".tmp", s.path + ".bak", s.path + "~", s.path + ".old", s.path + ".new", s.path + ".lock",
		strings.TrimSuffix(base, ".json") + ".tmp", strings.TrimSuffix(base, ".json") + ".json.gz", strings.TrimSuffix(base, ".json") + ".json",
		dirOf(s.path) + "/.state.json.tmp", dirOf(s.path) + "/notes.txt", "/tmp/state.json", "/work/main.ledger"}
	for k := 3; k < 30; k += 3 { // a number that may be the next process's
		names = append(names, fmt.Sprintf("%s.%d-0.tmp", s.path, k), fmt.Sprintf("%s.%d.tmp", s.path, k), fmt.Sprintf("%s.%d", s.path, k))
	}
	for i, n := range names {
		if n != s.path && w.fs.lookup(n) == nil {
			w.fs.put(n, []byte(fmt.Sprintf("a file of the user's, number %d", i)))
		}
	}
}

func (b *Books) doUntouched(x *Exec, s *Step) *Violation {
	w := x.w
	c := s.Cmds[0]
	u := watchFiles(w, "", false)
	r := w.run(c)
	for _, f := range r.fired {
		x.note("%s", f)
	}
	b.probes(x, r, r)
	return u.end(w, []*procResult{r})
}
