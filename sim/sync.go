package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/url"
	"strings"
)

// The download scenario: a machine with a state file, one bank, and a history
// of download commands, events at the bank, the passing of time and faults.

const epoch = 1614834061 * sec // 2021-03-04T05:01:01Z

type Sync struct {
	prop     string
	bank     string
	path     string // of the state file
	via      string // a symbolic link to it that the commands are given
	gz       bool
	env      map[string]string
	versions map[string]map[string]bool // every content the bank ever had for an item
	stored   map[string]bool            // items durably stored so far
	steps    int
	max      int
	mix      faultMix
	rich     bool
	last     string
	follow   int // downloads that follow a change of what the bank lists
	gone     int // how often the bank stops listing something
}

func newSync(prop string) Scenario { return &Sync{prop: prop} }

// ------------------------------------------------------------ configuration

func syncCfg(banks ...int) func(prop string, r *rng) *Step {
	return func(prop string, r *rng) *Step {
		b := []string{"monzo", "starling", "nordigen"}
		k := weighted(r, banks...)
		c := &Step{Op: "cfg", S: map[string]string{"bank": b[k]}, N: map[string]int64{}}
		c.S["ext"] = r.pick([]string{"json", "json", "json.gz"})
		c.S["dir"] = r.pick([]string{"/work", "/work/data", "/work/a/b", "/home/u"})
		c.S["rel"] = r.pick([]string{"abs", "abs", "rel"})
		c.S["cwd"] = r.pick([]string{"/work", "/work", "/", "/home/u", "/srv"})
		c.S["cred"] = r.pick([]string{"conf", "conf", "flag"})
		c.S["tz"] = pickZone(r)
		c.S["via"] = r.pick([]string{"", "", "", "", "abs", "rel", "chain", "deep"})
		c.N["mode"] = []int64{0644, 0600, 0640, 0755, 0400, 0660}[r.intn(6)]
		c.N["optkept"] = int64(weighted(r, 5, 1))
		c.N["optsched"] = int64(weighted(r, 10, 1, 1, 1))
		c.N["seed"] = int64(r.u64() >> 1)
		c.N["start"] = int64(r.intn(400*24*3600)) * sec
		c.N["accts"] = int64(1 + weighted(r, 5, 3, 2))
		c.N["optitems"] = []int64{0, 1, 3, 20, 99, 100, 101, 230}[weighted(r, 2, 3, 5, 6, 1, 1, 1, 1)]
		c.N["ttl"] = []int64{6 * hour, 6 * hour, 90 * sec, 30 * hour}[r.intn(4)]
		c.N["latms"] = []int64{0, 0, 30, 300, 2000}[r.intn(5)]
		c.N["limited"] = int64(r.intn(2))
		c.N["fresh"] = int64(weighted(r, 2, 1)) // 1: no state file history yet
		c.N["mix"] = int64(r.u64() >> 1)
		return c
	}
}

func (s *Sync) Init(x *Exec) {
	c := x.cfg
	s.bank = c.S["bank"]
	w := x.k.world(epoch + c.n("start"))
	x.w = w
	w.setZone(c.S["tz"])
	w.fs.mkdirAll("/srv")
	if c.S["cwd"] != "" {
		w.cwd = c.S["cwd"]
	}
	s.gz = strings.HasSuffix(c.S["ext"], ".gz")
	s.path = c.S["dir"] + "/state." + c.S["ext"]
	s.versions = map[string]map[string]bool{}
	s.stored = map[string]bool{}
	r := newRng(uint64(c.n("seed")))
	mr := newRng(uint64(c.n("mix")))
	s.mix = randomMix(mr)
	s.max = 3 + mr.intn(8)
	w.bank.latMax = c.n("latms") * 1e6
	conf := ""
	if c.S["cred"] == "conf" {
		conf = "[Download.Monzo]\nClientID = \"cid\"\nClientSecret = \"csecret-93ab77d0\"\n[Download.Starling]\nPersonalAccessToken = \"pat-5f1c0c7a9b\"\n"
	}
	if s.bank == "nordigen" || c.S["cred"] == "conf" {
		conf += "[Download.Nordigen]\nClientID = \"sid\"\nClientSecret = \"skey-4c1de0aa81\"\n"
	}
	w.fs.put("/home/u/g.toml", []byte(conf))
	s.env = map[string]string{"GOLEDGER_CONF": "/home/u/g.toml"}
	if n := c.n("optsched"); n > 0 && w.binConc != "" { // goroutines, if any, go on in any order
		w.bin = w.binConc
		s.env["GOSIM_YIELD"] = fmt.Sprint([]int{1, 1, 4, 20}[n])
	}
	n := int(c.n("optitems"))
	switch s.bank {
	case "monzo":
		m := w.bank.monzo
		m.TTL = c.n("ttl")
		m.HistoryLimited = c.n("limited") == 1
		m.Authorised = w.now - []int64{0, 100 * sec, 400 * sec, 10 * day}[r.intn(4)]
		for i := 0; i < int(c.n("accts")); i++ {
			m.Accts = append(m.Accts, &mAcct{ID: fmt.Sprintf("acc_%04d", i), Desc: "user"})
		}
		s.monzoBurst(w, 0, n, 400*day, 400*day, r)
		a, rf := m.issue(w.now, "")
		doc := map[string]any{"token": map[string]any{"access_token": a, "token_type": "Bearer", "refresh_token": rf, "expiry": rfcNano(w.now + m.TTL)}, "transactions": nil, "accounts": nil}
		s.install(w, doc)
	case "starling":
		b := w.bank.starling
		for i := 0; i < int(c.n("accts")); i++ {
			a := &sAcct{ID: fmt.Sprintf("sa-%d", i), Created: w.now - 300*day}
			a.Feeds = append(a.Feeds, &sFeed{Cat: fmt.Sprintf("cat-%d-0", i), Name: "main", Kind: "main"})
			for j := 0; j < r.intn(3); j++ {
				s.newFeed(a, r)
			}
			b.Accts = append(b.Accts, a)
		}
		b.Payees = []string{"p1"}
		s.starlingItems(w, 0, 0, n/2, 250*day, 250*day, -1, r)
		for left := n - n/2; left > 0; {
			k := 1 + r.intn(left)
			s.starlingItems(w, r.intn(3), r.intn(3), k, 250*day, 250*day, -1, r)
			left -= k
		}
	case "nordigen":
		b := w.bank.nordigen
		for i := 0; i < int(c.n("accts")); i++ {
			b.Accts = append(b.Accts, &nAcct{ID: fmt.Sprintf("na-%d", i)})
		}
		s.nordigenBook(w, 0, n, 150*day, 150*day, r)
		if c.n("setup") == 1 {
			if s.prop == "S10" && c.n("opttoken") == 1 { // an earlier dialogue was given up after the first answer
				a := "nacc-init"
				b.Access[a] = w.now + b.AccessTTL
				b.Refresh["nref-init"] = w.now + b.RefreshTTL
				s.install(w, map[string]any{"Token": map[string]any{"Access": a, "AccessExpires": rfcNano(w.now + b.AccessTTL), "Refresh": "nref-init", "RefreshExpires": rfcNano(w.now + b.RefreshTTL)},
					"Accounts": nil, "Institution": nil, "Requisition": nil})
			}
			break
		}
		b.Reqs["req-0"] = "BANK_1"
		b.Linked = true
		doc := map[string]any{"Token": nil, "Accounts": nil, "Institution": map[string]any{"id": "BANK_1", "name": "Bank 1", "bic": "X"},
			"Requisition": map[string]any{"id": "req-0", "link": "https://ob.nordigen.com/psd2/start/req-0", "accounts": []any{}, "status": "CR"}}
		if r.chance(1, 2) {
			a := "nacc-init"
			b.Access[a] = w.now + b.AccessTTL
			b.Refresh["nref-init"] = w.now + b.RefreshTTL
			doc["Token"] = map[string]any{"Access": a, "AccessExpires": rfcNano(w.now + b.AccessTTL), "Refresh": "nref-init", "RefreshExpires": rfcNano(w.now + b.RefreshTTL)}
		}
		s.install(w, doc)
	}
	w.fs.mkdirAll("/work/data")
	w.fs.mkdirAll(c.S["dir"])
	ext := "." + c.S["ext"]
	switch c.S["via"] {
	case "abs":
		s.via = "/work/links/bank" + ext
		w.fs.symlink(s.path, s.via)
	case "rel":
		s.via = "/work/bank" + ext
		w.fs.symlink(".."+s.path, s.via)
	case "deep":
		w.fs.mkdirAll("/srv/deep/er/dir")
		s.via = "/srv/deep/bank" + ext
		w.fs.symlink("er/dir/state"+ext, s.via)
		w.fs.symlink("../../../.."+s.path, "/srv/deep/er/dir/state"+ext)
		if w.cwd != "/srv/deep" { // the same names where the user happens to be
			w.fs.mkdirAll(strings.TrimSuffix(w.cwd, "/") + "/er/dir")
			if c.n("seed")%2 == 1 {
				w.fs.put(strings.TrimSuffix(w.cwd, "/")+"/er/dir/state"+ext, []byte("another file"))
			}
		}
	case "chain":
		s.via = "/work/bank" + ext
		w.fs.symlink("links/bank"+ext, s.via)
		w.fs.symlink("../.."+s.path, "/work/links/bank"+ext)
	}
	if in := w.fs.lookup(s.path); in != nil {
		in.mode = uint32(c.n("mode"))
	}
	if s.prop == "U01" {
		s.bystanders(w)
	}
	w.fs.syncAll()
	if c.n("fresh") == 0 && c.n("setup") == 0 {
		// Start from a machine that has downloaded before.
		res := w.run(s.cmd(x, 3))
		if !res.ok() {
			w.tracef("initial download failed: %d %s", res.Exit, res.Stderr)
		}
		w.fs.syncAll()
	}
	if in := w.fs.lookup(s.path); in != nil && c.n("optkept") == 1 { // another name of the same file
		w.fs.names["/srv/kept"+ext] = in.id
		w.fs.commit()
	}
	s.remember(w)
	if v, err := s.load(w); err == nil {
		for k := range v.items {
			s.stored[k] = true
		}
	}
}

func rfcNano(t int64) string { return rfcMs(t) }

func (s *Sync) install(w *World, doc map[string]any) {
	b, _ := json.MarshalIndent(doc, "", "  ")
	s.installBytes(w, b)
}

// inflated is the document in a state file's contents, nil if it does not read.
func (s *Sync) inflated(b []byte) []byte {
	if !s.gz {
		return b
	}
	g, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil
	}
	if b, err = io.ReadAll(g); err != nil {
		return nil
	}
	return b
}

func (s *Sync) installBytes(w *World, b []byte) {
	if s.gz {
		var buf bytes.Buffer
		g := gzip.NewWriter(&buf)
		g.Write(b)
		g.Close()
		b = buf.Bytes()
	}
	w.fs.put(s.path, b)
}

func (s *Sync) cmd(x *Exec, seed uint64) *Cmd {
	p := s.path
	if s.via != "" {
		p = s.via
	}
	if x.cfg.S["rel"] == "rel" {
		if q, ok := strings.CutPrefix(p, strings.TrimSuffix(x.w.cwd, "/")+"/"); ok {
			p = q
		}
	}
	args := []string{"download", s.bank, p}
	if x.cfg.S["cred"] == "flag" {
		switch s.bank {
		case "monzo":
			args = append(args, "--clientid", "cid", "--clientsecret=csecret-93ab77d0")
		case "starling":
			args = append(args, "--personalAccessToken", "pat-5f1c0c7a9b")
		}
	}
	return &Cmd{Args: args, Env: s.env, Seed: seed}
}

// ------------------------------------------------------------ bank events

func (s *Sync) monzoBurst(w *World, acct, count int, from, span int64, r *rng) {
	m := w.bank.monzo
	a := m.Accts[acct%len(m.Accts)]
	for i := 0; i < count; i++ {
		m.n++
		t := w.now - from
		if span > 0 {
			t += int64(r.u64() % uint64(span))
		}
		if t > w.now {
			t = w.now
		}
		t -= t % 1e6
		j := int64(0)
		if r.chance(1, 3) {
			j = int64(r.intn(59999)) * 1e6
		}
		a.Txns = append(a.Txns, &mTxn{ID: oddID("tx_", m.n), Created: t, Key: t + j, Amount: r.intn(20000) - 10000, Desc: fmt.Sprintf("Shop %d", r.intn(9))})
	}
	a.add2()
}

func (s *Sync) newFeed(a *sAcct, r *rng) *sFeed {
	f := &sFeed{Cat: fmt.Sprintf("cat-%s-%d", a.ID, len(a.Feeds)), Name: fmt.Sprintf("space %d", len(a.Feeds)), Kind: r.pick([]string{"saving", "spending"})}
	a.Feeds = append(a.Feeds, f)
	return f
}

// oddID is the n-th identifier; some differ in case, at the end, or late only.
func oddID(p string, n int) string {
	switch n % 7 {
	case 2:
		return fmt.Sprintf("%s%06da", p, n)
	case 3:
		return fmt.Sprintf("%s%06dA", p, n-1)
	case 4:
		return fmt.Sprintf("%s%s%d", p, strings.Repeat("0", 60), n)
	case 5:
		return fmt.Sprintf("%s%06d/%s", p, n, "\u00e9")
	}
	return fmt.Sprintf("%s%06d", p, n)
}

func (s *Sync) starlingItems(w *World, acct, feed, count int, from, span, lag int64, r *rng) {
	b := w.bank.starling
	a := b.Accts[acct%len(b.Accts)]
	f := a.Feeds[feed%len(a.Feeds)]
	for i := 0; i < count; i++ {
		t := w.now - from
		if span > 0 {
			t += int64(r.u64() % uint64(span))
		}
		if t > w.now {
			t = w.now
		}
		t -= t % 1e6
		if t < a.Created {
			t = a.Created
		}
		it := &sItem{ID: oddID(fmt.Sprintf("fi-%s-", f.Cat), len(f.Items)), Time: t, Updated: t, Visible: t, Amount: r.intn(9999), Status: "SETTLED"}
		if lag > 0 {
			it.Visible = t + lag - int64(r.u64()%uint64(lag))
		}
		if lag >= 0 && it.Visible < w.now { // it happens now, not before an earlier download
			it.Visible = w.now
		}
		f.Items = append(f.Items, it)
	}
}

func (s *Sync) nordigenBook(w *World, acct, count int, from, span int64, r *rng) {
	b := w.bank.nordigen
	a := b.Accts[acct%len(b.Accts)]
	for i := 0; i < count; i++ {
		t := w.now - from
		if span > 0 {
			t += int64(r.u64() % uint64(span))
		}
		if t > w.now {
			t = w.now
		}
		a.Booked = append(a.Booked, &nTxn{ID: oddID(fmt.Sprintf("nt-%s-", a.ID), len(a.Booked)), Booked: t, Amount: r.intn(500)})
	}
}

func (s *Sync) event(x *Exec, st *Step) {
	w := x.w
	r := newRng(uint64(st.n("seed")))
	acct := int(st.n("acct"))
	count := int(st.n("count"))
	switch st.Op {
	case "m.burst":
		s.monzoBurst(w, acct, count, st.n("from"), st.n("span"), r)
	case "m.edit":
		m := w.bank.monzo
		a := m.Accts[acct%len(m.Accts)]
		for i := 0; i < count && len(a.Txns) > 0; i++ {
			t := a.Txns[r.intn(len(a.Txns))]
			t.Rev++
			t.Amount++
		}
	case "m.acct":
		m := w.bank.monzo
		m.Accts = append(m.Accts, &mAcct{ID: fmt.Sprintf("acc_%04d", len(m.Accts)), Desc: "user"})
	case "m.rename":
		m := w.bank.monzo
		m.Accts[acct%len(m.Accts)].Desc += "x"
	case "m.hide":
		a := w.bank.monzo.Accts[acct%len(w.bank.monzo.Accts)]
		a.Hidden = !a.Hidden
	case "m.drop":
		a := w.bank.monzo.Accts[acct%len(w.bank.monzo.Accts)]
		if len(a.Txns) > 0 {
			a.Txns[r.intn(len(a.Txns))].Gone = true
		}
	case "s.hide":
		a := w.bank.starling.Accts[acct%len(w.bank.starling.Accts)]
		a.Hidden = !a.Hidden
	case "s.drop":
		a := w.bank.starling.Accts[acct%len(w.bank.starling.Accts)]
		f := a.Feeds[int(st.n("feed"))%len(a.Feeds)]
		if len(f.Items) > 0 {
			f.Items[r.intn(len(f.Items))].Gone = true
		}
	case "n.hide":
		a := w.bank.nordigen.Accts[acct%len(w.bank.nordigen.Accts)]
		a.Hidden = !a.Hidden
	case "m.reauth":
		w.bank.monzo.Authorised = w.now
	case "s.items":
		s.starlingItems(w, acct, int(st.n("feed")), count, st.n("from"), st.n("span"), st.n("lag"), r)
	case "s.edit":
		b := w.bank.starling
		a := b.Accts[acct%len(b.Accts)]
		f := a.Feeds[int(st.n("feed"))%len(a.Feeds)]
		for i := 0; i < count && len(f.Items) > 0; i++ {
			t := f.Items[r.intn(len(f.Items))]
			t.Amount++
			t.Status = "UPDATED"
			if t.Visible <= w.now && r.chance(1, 6) { // changed again without a new time stamp
				t.Visible = w.now
				continue
			}
			t.Updated = w.now - w.now%1e6
			t.Visible = t.Updated
			if l := st.n("lag"); l > 0 {
				t.Visible += int64(r.u64() % uint64(l))
			}
		}
	case "s.space":
		b := w.bank.starling
		s.newFeed(b.Accts[acct%len(b.Accts)], r)
	case "s.close":
		b := w.bank.starling
		a := b.Accts[acct%len(b.Accts)]
		if st.n("feed") == 2 {
			for _, f := range a.Feeds[1:] {
				f.Closed = true
			}
		} else if len(a.Feeds) > 1 {
			f := a.Feeds[1+r.intn(len(a.Feeds)-1)]
			f.Closed = !f.Closed
		}
	case "s.payee":
		b := w.bank.starling
		b.Payees = append(b.Payees, fmt.Sprintf("p%d", len(b.Payees)+1))
	case "s.rename":
		b := w.bank.starling
		b.Accts[acct%len(b.Accts)].Rev++
	case "s.acct":
		b := w.bank.starling
		n := len(b.Accts)
		a := &sAcct{ID: fmt.Sprintf("sa-%d", n), Created: w.now}
		a.Feeds = append(a.Feeds, &sFeed{Cat: fmt.Sprintf("cat-%d-0", n), Name: "main", Kind: "main"})
		b.Accts = append(b.Accts, a)
	case "n.book":
		s.nordigenBook(w, acct, count, st.n("from"), st.n("span"), r)
	case "n.edit":
		b := w.bank.nordigen
		a := b.Accts[acct%len(b.Accts)]
		for i := 0; i < count && len(a.Booked) > 0; i++ {
			a.Booked[r.intn(len(a.Booked))].Rev++
		}
	case "n.pend":
		b := w.bank.nordigen
		a := b.Accts[acct%len(b.Accts)]
		a.Pending = nil
		for i := 0; i < count; i++ {
			a.Pending = append(a.Pending, &nTxn{ID: fmt.Sprintf("pend-%s-%d", a.ID, r.intn(1000)), Booked: w.now, Amount: 1})
		}
	case "n.settle": // pending items become booked under their own identifiers
		b := w.bank.nordigen
		a := b.Accts[acct%len(b.Accts)]
		for _, p := range a.Pending {
			dup := false
			for _, q := range a.Booked {
				dup = dup || q.ID == p.ID
			}
			if !dup {
				p.Booked = w.now
				a.Booked = append(a.Booked, p)
			}
		}
		a.Pending = nil
	case "n.acct":
		b := w.bank.nordigen
		b.Accts = append(b.Accts, &nAcct{ID: fmt.Sprintf("na-%d", len(b.Accts))})
	case "n.link":
		w.bank.nordigen.Linked = true
	default:
		hfail("unknown event %s", st.Op)
	}
	s.remember(w)
}

// ------------------------------------------------------------ views

// view is the content of a state file: every stored item under a stable key.
type view struct {
	items   map[string]string
	access  string
	refresh string
	doc     map[string]any
}

// canon is a text that two values have in common exactly if they are the same
// JSON value, numbers being compared exactly.
func canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	d, ok := canonB(string(b))
	if !ok {
		return string(b)
	}
	b, _ = json.Marshal(exact(d))
	return string(b)
}

// exact replaces the numbers by their values.
func exact(v any) any {
	switch t := v.(type) {
	case json.Number:
		if r, ok := new(big.Rat).SetString(string(t)); ok {
			return "number " + r.RatString()
		}
	case map[string]any:
		for k, e := range t {
			t[k] = exact(e)
		}
	case []any:
		for i, e := range t {
			t[i] = exact(e)
		}
	}
	return v
}

func decodeExact(b []byte, v any) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(v); err != nil {
		return err
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Errorf("more data after the document")
	}
	return nil
}

// canonB canonicalises JSON bytes.
func canonB(b string) (any, bool) {
	var v any
	if decodeExact([]byte(b), &v) != nil {
		return nil, false
	}
	return v, true
}

func obj(v any) map[string]any { m, _ := v.(map[string]any); return m }
func arr(v any) []any          { a, _ := v.([]any); return a }
func str(v any) string         { s, _ := v.(string); return s }

// field finds a key ignoring case, as Go's decoder does.
func field(m map[string]any, k string) any {
	if v, ok := m[k]; ok {
		return v
	}
	for q, v := range m {
		if strings.EqualFold(q, k) {
			return v
		}
	}
	return nil
}

func parseState(b []byte, gz bool) (map[string]any, error) {
	if gz {
		g, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, fmt.Errorf("gzip: %v", err)
		}
		if b, err = io.ReadAll(g); err != nil {
			return nil, fmt.Errorf("gzip: %v", err)
		}
	}
	var d map[string]any
	if err := decodeExact(b, &d); err != nil {
		return nil, err
	}
	return d, nil
}

func (s *Sync) viewOf(doc map[string]any) *view {
	v := &view{items: map[string]string{}, doc: doc}
	switch s.bank {
	case "monzo":
		t := obj(field(doc, "token"))
		v.access, v.refresh = str(t["access_token"]), str(t["refresh_token"])
		for id, a := range obj(field(doc, "accounts")) {
			v.items["acct/"+id] = canon(a)
		}
		for id, a := range obj(field(doc, "transactions")) {
			v.items["txn/"+id] = canon(a)
		}
	case "starling":
		for id, a := range obj(field(doc, "accounts")) {
			m := obj(a)
			v.items["acct/"+id] = canon(field(m, "account"))
			if i := field(m, "identifiers"); i != nil {
				v.items["ident/"+id] = canon(i)
			}
			if sp := obj(field(m, "spaces")); sp != nil {
				v.items["spaces/"+id] = canonSpaces(sp)
			}
			for cat, f := range obj(field(m, "feeditems")) {
				for iid, it := range obj(f) {
					v.items["feed/"+id+"/"+cat+"/"+iid] = canon(it)
				}
			}
		}
		if p := arr(field(doc, "Payees")); len(p) > 0 {
			v.items["payees"] = canon(p)
		}
	case "nordigen":
		t := obj(field(doc, "Token"))
		v.access, v.refresh = str(field(t, "Access")), str(field(t, "Refresh"))
		for id, a := range obj(field(doc, "Accounts")) {
			m := obj(a)
			v.items["acct/"+id] = "1"
			if b := field(m, "Basic"); b != nil {
				v.items["basic/"+id] = canon(b)
			}
			if b := field(m, "Details"); b != nil {
				v.items["details/"+id] = canon(b)
			}
			for tid, t := range obj(field(m, "Transactions")) {
				v.items["txn/"+id+"/"+tid] = canon(t)
			}
		}
		if i := field(doc, "Institution"); i != nil {
			v.items["institution"] = canon(i)
		}
		if i := field(doc, "Requisition"); i != nil {
			v.items["requisition"] = canon(i)
		}
	}
	return v
}

func canonSpaces(sp map[string]any) string {
	a, b := arr(field(sp, "savingsGoals")), arr(field(sp, "spendingSpaces"))
	if a == nil {
		a = []any{}
	}
	if b == nil {
		b = []any{}
	}
	return canon(map[string]any{"savingsGoals": a, "spendingSpaces": b})
}

// load reads the state file as another program would see it.
func (s *Sync) load(w *World) (*view, error) { return s.loadFS(w.fs) }

func (s *Sync) loadFS(fs *vfs) (*view, error) {
	b, ok := fs.get(s.path)
	if !ok {
		return &view{items: map[string]string{}}, nil
	}
	d, err := parseState(b, s.gz)
	if err != nil {
		return nil, err
	}
	return s.viewOf(d), nil
}

func (s *Sync) exists(fs *vfs) bool { _, ok := fs.get(s.path); return ok }

func sameItems(a, b *view) bool {
	if len(a.items) != len(b.items) {
		return false
	}
	for k, v := range a.items {
		if b.items[k] != v {
			return false
		}
	}
	return true
}

func diffItems(got, want *view) string {
	var d []string
	for _, k := range sortedKeys(want.items) {
		if g, ok := got.items[k]; !ok {
			d = append(d, "missing "+k)
		} else if g != want.items[k] {
			d = append(d, fmt.Sprintf("%s is %s, not %s", k, clip(g), clip(want.items[k])))
		}
	}
	for _, k := range sortedKeys(got.items) {
		if _, ok := want.items[k]; !ok {
			d = append(d, "unexpected "+k)
		}
	}
	n := len(d)
	if n > 4 {
		d = append(d[:4], fmt.Sprintf("... %d differences", n))
	}
	return strings.Join(d, "; ")
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

// truth is everything the bank holds now, under the same keys (content only;
// visibility is decided by the oracle of each bank).
func (s *Sync) truth(w *World) map[string]string {
	t := map[string]string{}
	put := func(k string, v any) { b, _ := canonB(js(v)); t[k] = canon(b) }
	switch s.bank {
	case "monzo":
		for _, a := range w.bank.monzo.Accts {
			put("acct/"+a.ID, map[string]any{"id": a.ID, "description": a.Desc, "created": "2019-01-01T00:00:00Z", "closed": false})
			for _, x := range a.Txns {
				put("txn/"+x.ID, x.json())
			}
		}
	case "starling":
		b := w.bank.starling
		for _, a := range b.Accts {
			for _, f := range a.Feeds {
				for _, i := range f.Items {
					put("feed/"+a.ID+"/"+f.Cat+"/"+i.ID, i.json(f.Cat))
				}
			}
		}
	case "nordigen":
		for _, a := range w.bank.nordigen.Accts {
			for _, x := range a.Booked {
				put("txn/"+a.ID+"/"+x.ID, x.json())
			}
		}
	}
	return t
}

func (s *Sync) remember(w *World) {
	for k, v := range s.truth(w) {
		m := s.versions[k]
		if m == nil {
			m = map[string]bool{}
			s.versions[k] = m
		}
		m[v] = true
	}
}

// delivered folds the answers a run received completely into a view.
func (s *Sync) delivered(reqs []httpRec) *view {
	v := &view{items: map[string]string{}}
	set := func(k string, x any) { v.items[k] = canon(x) }
	for _, q := range reqs {
		if !q.full || q.status < 200 || q.status > 299 {
			continue
		}
		d, ok := canonB(q.body)
		if !ok {
			continue
		}
		u, err := url.Parse(q.url)
		if err != nil {
			continue
		}
		p := strings.Split(strings.Trim(u.Path, "/"), "/")
		m := obj(d)
		switch s.bank {
		case "monzo":
			switch u.Path {
			case "/oauth2/token":
				v.access, v.refresh = str(m["access_token"]), str(m["refresh_token"])
			case "/accounts":
				for _, a := range arr(m["accounts"]) {
					set("acct/"+str(obj(a)["id"]), a)
				}
			case "/transactions":
				for _, a := range arr(m["transactions"]) {
					set("txn/"+str(obj(a)["id"]), a)
				}
			}
		case "starling":
			switch {
			case u.Path == "/api/v2/accounts":
				for _, a := range arr(m["accounts"]) {
					set("acct/"+str(obj(a)["accountUid"]), a)
				}
			case u.Path == "/api/v2/payees":
				if l := arr(m["payees"]); len(l) > 0 {
					set("payees", l)
				}
			case len(p) == 5 && p[4] == "identifiers":
				set("ident/"+p[3], d)
			case len(p) == 5 && p[4] == "spaces":
				v.items["spaces/"+p[3]] = canonSpaces(m)
			case len(p) == 7:
				for _, a := range arr(m["feedItems"]) {
					set("feed/"+p[4]+"/"+p[6]+"/"+str(obj(a)["feedItemUid"]), a)
				}
			}
		case "nordigen":
			p = p[2:]
			switch {
			case u.Path == "/api/v2/token/new/":
				v.access, v.refresh = str(m["access"]), str(m["refresh"])
			case u.Path == "/api/v2/token/refresh/":
				v.access = str(m["access"])
			case p[0] == "requisitions":
				set("requisition", d)
			case p[0] == "accounts" && len(p) == 2:
				v.items["acct/"+p[1]] = "1"
				set("basic/"+p[1], d)
			case p[0] == "accounts" && p[2] == "details":
				set("details/"+p[1], d)
			case p[0] == "accounts" && p[2] == "transactions":
				for _, a := range arr(obj(m["transactions"])["booked"]) {
					set("txn/"+p[1]+"/"+str(obj(a)["transactionId"]), a)
				}
			}
		}
	}
	return v
}

// contains reports what of want is not in got with that content.
func contains(got, want *view) string {
	for _, k := range sortedKeys(want.items) {
		g, ok := got.items[k]
		if !ok {
			return "missing " + k
		}
		if g != want.items[k] {
			return fmt.Sprintf("%s is %s, not %s", k, clip(g), clip(want.items[k]))
		}
	}
	if want.access != "" && got.access != want.access {
		return fmt.Sprintf("credential is %q, not %q", got.access, want.access)
	}
	return ""
}

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

var downloadReal = []string{"goledger command-line program built from /repo's working tree (cobra, oauth2, toml, gzip, encoding/json, net/http client above the transport)", "Go runtime and standard library above the system-call layer"}
var downloadStub = []string{"kernel file system: simulated disk with volatile and durable state", "network and banks: reference models of the Monzo, Starling and Nordigen APIs behind http.Transport", "clock and timers: virtual time", "randomness: runtime and getrandom seeded"}
var syncAssume = []string{
	"Power loss keeps a prefix of the journalled metadata operations and, per un-synced file, one of: old content, new content, a torn or zero-filled or empty mixture; an fsync makes the file and all earlier metadata durable (journalling file system).",
	"Between two separate commands the kernel has written back (no power failure hits data of an already finished or killed earlier command, except where the property is about exactly that).",
	"The bank honours the previous refresh token until the access token issued in exchange is first used, and an access token for up to a minute past its expiry.",
	"Each bank's reference model follows its documented behaviour as the program relies on it (listing order, page limit, restricted history, change window).",
}

func syncProp(id string, quick, thorough int, cfg func(string, *rng) *Step, extra ...ScenarioDef) {
	p := &Property{ID: id, Conc: true, Quick: quick, Thorough: thorough, Assume: syncAssume, Real: downloadReal, Stub: downloadStub,
		Rule:      "Histories of download commands, bank events, waits and faults; every fault is placed on an operation that a rehearsal of the same command performed, biased to operations on the state file and to requests.",
		Scenarios: append([]ScenarioDef{{Name: "sync", Weight: 6, Cfg: cfg, New: newSync}}, extra...)}
	for _, e := range extra {
		p.Conc = p.Conc || e.Name == "callback"
	}
	register(p)
}

func setupDef(w int) ScenarioDef {
	base := syncCfg(0, 0, 1)
	return ScenarioDef{Name: "setup", Weight: w, New: newSync, Cfg: func(prop string, r *rng) *Step {
		c := base(prop, r)
		c.N["setup"] = 1
		c.N["fresh"] = 1
		c.N["opttoken"] = int64(r.intn(2))
		return c
	}}
}

func init() {
	syncProp("S01", 900, 20000, syncCfg(4, 3, 3), setupDef(1))
	syncProp("S02", 1800, 20000, syncCfg(4, 3, 3), setupDef(1))
	syncProp("S03", 1800, 20000, syncCfg(4, 3, 3), setupDef(1))
	syncProp("S04", 1800, 20000, syncCfg(1, 0, 0))
	syncProp("S05", 1800, 20000, syncCfg(0, 1, 0))
	syncProp("S06", 1800, 20000, syncCfg(0, 0, 1), setupDef(2))
	syncProp("S07", 1800, 20000, syncCfg(4, 3, 3))
	syncProp("S08", 1800, 20000, syncCfg(4, 0, 1))
	syncProp("U01", 1500, 20000, syncCfg(4, 3, 3), setupDef(1), ScenarioDef{Name: "books", Weight: 5, Cfg: booksCfg, New: newBooks})
	syncProp("K01", 1800, 20000, syncCfg(3, 2, 3), setupDef(2), ScenarioDef{Name: "callback", Weight: 2, Cfg: callbackCfg, New: newCallback})
	syncProp("S10", 1500, 20000, syncCfg(3, 3, 3), setupDef(1))
	syncProp("S11", 1500, 20000, syncCfg(4, 2, 1), setupDef(1))
}
