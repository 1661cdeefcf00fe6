package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
)

// The simulated disk: a name space and inodes, each with a volatile side (what
// running processes see: the page cache) and a durable side (what a power
// failure leaves). A kill of a process loses only what never reached a system
// call; a power failure additionally loses un-synced file data and the tail of
// the metadata journal.

type inode struct {
	id      int
	dir     bool
	link    string // symlink target
	mode    uint32
	data    []byte
	durable []byte // content guaranteed after the last fsync
	dirty   bool
	mtime   int64
}

type nsop struct {
	kind string // link, unlink, rename
	a, b string
	ino  int
}

type vfs struct {
	inodes    map[int]*inode
	names     map[string]int
	committed map[string]int
	journal   []nsop
	nextIno   int
	free      int64 // bytes left on the device; <0: unlimited
	now       int64
}

func newVFS() *vfs {
	v := &vfs{inodes: map[int]*inode{}, names: map[string]int{}, nextIno: 2, free: -1}
	v.inodes[1] = &inode{id: 1, dir: true, mode: 0755}
	v.names["/"] = 1
	v.committed = map[string]int{"/": 1}
	return v
}

func (v *vfs) clone() *vfs {
	n := &vfs{inodes: make(map[int]*inode, len(v.inodes)), names: make(map[string]int, len(v.names)), committed: make(map[string]int, len(v.committed)), nextIno: v.nextIno, free: v.free, now: v.now}
	for k, i := range v.inodes {
		c := *i // data slices are copy-on-write: every mutation replaces the slice
		n.inodes[k] = &c
	}
	for k, x := range v.names {
		n.names[k] = x
	}
	for k, x := range v.committed {
		n.committed[k] = x
	}
	n.journal = append([]nsop(nil), v.journal...)
	return n
}

func cleanPath(cwd, p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	return path.Clean(p)
}

// resolve follows symbolic links in every component but (if nofollow) the last.
func (v *vfs) resolve(p string, nofollow bool) (string, syscall.Errno) {
	for hops := 0; hops < 20; hops++ {
		parts := strings.Split(strings.Trim(p, "/"), "/")
		cur := ""
		again := false
		for i, c := range parts {
			if c == "" {
				continue
			}
			nxt := cur + "/" + c
			id, ok := v.names[nxt]
			if ok {
				in := v.inodes[id]
				if in.link != "" && !(nofollow && i == len(parts)-1) {
					rest := strings.Join(parts[i+1:], "/")
					p = cleanPath(cur+"/", in.link+"/"+rest)
					again = true
					break
				}
				if !in.dir && i < len(parts)-1 {
					return "", syscall.ENOTDIR
				}
			} else if i < len(parts)-1 {
				return "", syscall.ENOENT
			}
			cur = nxt
		}
		if !again {
			if cur == "" {
				cur = "/"
			}
			return cur, 0
		}
	}
	return "", syscall.ELOOP
}

func (v *vfs) lookup(p string) *inode {
	if id, ok := v.names[p]; ok {
		return v.inodes[id]
	}
	return nil
}

func (v *vfs) addJournal(o nsop) { v.journal = append(v.journal, o) }

func (v *vfs) create(p string, dir bool, mode uint32) *inode {
	in := &inode{id: v.nextIno, dir: dir, mode: mode, mtime: v.now}
	v.nextIno++
	v.inodes[in.id] = in
	v.names[p] = in.id
	v.addJournal(nsop{kind: "link", a: p, ino: in.id})
	return in
}

func applyNS(names map[string]int, o nsop) {
	switch o.kind {
	case "link":
		names[o.a] = o.ino
	case "unlink":
		delete(names, o.a)
	case "rename":
		if id, ok := names[o.a]; ok {
			delete(names, o.a)
			names[o.b] = id
		}
		pre := o.a + "/"
		for k, id := range names {
			if strings.HasPrefix(k, pre) {
				delete(names, k)
				names[o.b+"/"+k[len(pre):]] = id
			}
		}
	}
}

func (v *vfs) commit() {
	v.committed = make(map[string]int, len(v.names))
	for k, x := range v.names {
		v.committed[k] = x
	}
	v.journal = nil
}

func (v *vfs) fsync(in *inode) {
	in.durable = in.data
	in.dirty = false
	v.commit()
}

// syncAll makes everything durable (time passes, the kernel writes back).
func (v *vfs) syncAll() {
	for _, in := range v.inodes {
		in.durable, in.dirty = in.data, false
	}
	v.commit()
}

func (v *vfs) setData(in *inode, d []byte) {
	in.data = d
	in.dirty = true
	in.mtime = v.now
}

// pwrite writes p at off, honouring the device's free space.
func (v *vfs) pwrite(in *inode, off int64, p []byte) (int, syscall.Errno) {
	grow := off + int64(len(p)) - int64(len(in.data))
	if grow > 0 && v.free >= 0 {
		if grow > v.free {
			fit := int64(len(p)) - (grow - v.free)
			if fit <= 0 {
				return 0, syscall.ENOSPC
			}
			p = p[:fit]
			grow = v.free
		}
		v.free -= grow
	}
	n := int64(len(in.data))
	if off+int64(len(p)) > n {
		n = off + int64(len(p))
	}
	d := make([]byte, n)
	copy(d, in.data)
	copy(d[off:], p)
	v.setData(in, d)
	return len(p), 0
}

func (v *vfs) truncate(in *inode, n int64) {
	d := make([]byte, n)
	copy(d, in.data)
	if v.free >= 0 && n < int64(len(in.data)) {
		v.free += int64(len(in.data)) - n
	}
	v.setData(in, d)
}

// powerLoss drops volatile state. r draws what the device happened to have
// written: a prefix of the metadata journal, and for every dirty file one of
// the contents an ordinary journalling file system may leave.
func (v *vfs) powerLoss(r *rng) string {
	k := 0
	if len(v.journal) > 0 {
		switch r.intn(3) {
		case 0:
			k = len(v.journal)
		default:
			k = r.intn(len(v.journal) + 1)
		}
	}
	names := make(map[string]int, len(v.committed))
	for p, x := range v.committed {
		names[p] = x
	}
	for _, o := range v.journal[:k] {
		applyNS(names, o)
	}
	desc := fmt.Sprintf("journal %d/%d", k, len(v.journal))
	ids := make([]int, 0)
	seen := map[int]bool{}
	for _, id := range names {
		if !seen[id] {
			seen[id] = true
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	inodes := map[int]*inode{}
	for _, id := range ids {
		in := v.inodes[id]
		c := *in
		if c.dirty {
			c.data = crashContent(r, in.durable, in.data)
			desc += fmt.Sprintf("; ino%d dirty %d/%d bytes kept %d", id, len(in.durable), len(in.data), len(c.data))
		}
		c.durable, c.dirty = c.data, false
		inodes[id] = &c
	}
	v.inodes, v.names, v.journal = inodes, names, nil
	// Orphaned children of directories whose creation was lost disappear with them.
	for p := range v.names {
		for d := path.Dir(p); d != "/"; d = path.Dir(d) {
			if _, ok := v.names[d]; !ok {
				delete(v.names, p)
				break
			}
		}
	}
	v.commit()
	return desc
}

func crashContent(r *rng, old, cur []byte) []byte {
	cut := 0
	if len(cur) > 0 {
		cut = r.intn(len(cur) + 1)
	}
	switch r.intn(6) {
	case 0:
		return old
	case 1:
		return cur
	case 2:
		return append([]byte(nil), cur[:cut]...) // torn
	case 3: // size reached the disk before the data did
		d := make([]byte, len(cur))
		copy(d, cur[:cut])
		return d
	case 4:
		return []byte{}
	default: // new bytes over the old content
		d := append([]byte(nil), old...)
		if len(d) > len(cur) {
			d = d[:len(cur)]
		}
		copy(d, cur[:min(cut, len(d))])
		return d
	}
}

// put installs a file durably (harness side).
func (v *vfs) put(p string, data []byte) {
	v.mkdirAll(path.Dir(p))
	in := v.lookup(p)
	if in == nil || in.dir {
		in = v.create(p, false, 0644)
	}
	in.data = append([]byte(nil), data...)
	in.durable, in.dirty, in.mtime = in.data, false, v.now
	v.commit()
}

// symlink installs a symbolic link durably (harness side).
func (v *vfs) symlink(target, p string) {
	v.mkdirAll(path.Dir(p))
	v.create(p, false, 0777).link = target
	v.commit()
}

func (v *vfs) mkdirAll(p string) {
	if p == "/" || p == "." {
		return
	}
	if v.lookup(p) != nil {
		return
	}
	v.mkdirAll(path.Dir(p))
	v.create(p, true, 0755)
	v.commit()
}

func (v *vfs) remove(p string) {
	if _, ok := v.names[p]; ok {
		delete(v.names, p)
		v.addJournal(nsop{kind: "unlink", a: p})
		v.commit()
	}
}

func (v *vfs) get(p string) ([]byte, bool) {
	rp, e := v.resolve(p, false)
	if e != 0 {
		return nil, false
	}
	in := v.lookup(rp)
	if in == nil || in.dir {
		return nil, false
	}
	return in.data, true
}

func (v *vfs) list(dir string) []string {
	pre := strings.TrimSuffix(dir, "/") + "/"
	var out []string
	for p := range v.names {
		if strings.HasPrefix(p, pre) && p != pre && !strings.Contains(p[len(pre):], "/") {
			out = append(out, p[len(pre):])
		}
	}
	sort.Strings(out)
	return out
}

func (v *vfs) statBytes(in *inode) []byte {
	b := make([]byte, 144)
	le := binary.LittleEndian
	le.PutUint64(b[0:], 1)
	le.PutUint64(b[8:], uint64(in.id))
	links := 0
	for _, id := range v.names {
		if id == in.id {
			links++
		}
	}
	le.PutUint64(b[16:], uint64(links))
	mode := in.mode & 07777
	switch {
	case in.dir:
		mode |= syscall.S_IFDIR
	case in.link != "":
		mode |= syscall.S_IFLNK
	default:
		mode |= syscall.S_IFREG
	}
	le.PutUint32(b[24:], mode)
	size := int64(len(in.data))
	if in.dir {
		size = 4096
	}
	if in.link != "" {
		size = int64(len(in.link))
	}
	le.PutUint64(b[48:], uint64(size))
	le.PutUint64(b[56:], 4096)
	le.PutUint64(b[64:], uint64((size+511)/512))
	for _, o := range []int{72, 88, 104} {
		le.PutUint64(b[o:], uint64(in.mtime/1e9))
		le.PutUint64(b[o+8:], uint64(in.mtime%1e9))
	}
	return b
}

func devStatBytes(mode uint32) []byte {
	b := make([]byte, 144)
	binary.LittleEndian.PutUint64(b[8:], 900000)
	binary.LittleEndian.PutUint32(b[24:], mode)
	return b
}

func direntBytes(names []string, v *vfs, dir string, off *int, limit int) []byte {
	var buf bytes.Buffer
	for *off < len(names) {
		n := names[*off]
		rl := (19 + len(n) + 1 + 7) &^ 7
		if buf.Len()+rl > limit {
			break
		}
		b := make([]byte, rl)
		in := v.lookup(strings.TrimSuffix(dir, "/") + "/" + n)
		binary.LittleEndian.PutUint64(b[0:], uint64(in.id))
		binary.LittleEndian.PutUint64(b[8:], uint64(*off+1))
		binary.LittleEndian.PutUint16(b[16:], uint16(rl))
		b[18] = syscall.DT_REG
		if in.dir {
			b[18] = syscall.DT_DIR
		}
		copy(b[19:], n)
		buf.Write(b)
		*off++
	}
	return buf.Bytes()
}
