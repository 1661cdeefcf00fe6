package main

import (
	"encoding/base64"
	"encoding/json"
	"net/url"
	"strings"
)

// The property K01: credentials stay between the user, the state file and the
// bank they belong to.

type credential struct{ text, what, bank string }

func (b *Banks) credentials() []credential {
	c := []credential{{b.monzo.Secret, "Monzo client secret", "monzo"}, {b.starling.Token, "Starling access token", "starling"}, {b.nordigen.SecretKey, "Nordigen secret key", "nordigen"}}
	for _, k := range sortedKeys(b.monzo.Access) {
		c = append(c, credential{k, "Monzo access token", "monzo"}, credential{b.monzo.Access[k].Refresh, "Monzo refresh token", "monzo"})
	}
	for _, k := range sortedKeys(b.nordigen.Access) {
		c = append(c, credential{k, "Nordigen access token", "nordigen"})
	}
	for _, k := range sortedKeys(b.nordigen.Refresh) {
		c = append(c, credential{k, "Nordigen refresh token", "nordigen"})
	}
	return c
}

// bankOf names the bank an address belongs to, "" if it is no bank's or the
// connection is not encrypted.
func bankOf(u string) string {
	p, err := url.Parse(u)
	if err != nil || p.Scheme != "https" {
		return ""
	}
	switch p.Host {
	case "api.monzo.com", "auth.monzo.com":
		return "monzo"
	case "api.starlingbank.com":
		return "starling"
	case "ob.nordigen.com":
		return "nordigen"
	}
	return ""
}

// sentAway finds a credential in a request to anybody but its bank.
func sentAway(w *World, u string, hdr map[string]string, body string) *Violation {
	text := []string{u, body}
	if s, err := url.QueryUnescape(u + "\n" + body); err == nil {
		text = append(text, s)
	}
	for _, k := range sortedKeys(hdr) {
		text = append(text, hdr[k])
		if b, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(hdr[k], "Basic ")); err == nil {
			text = append(text, string(b))
		}
	}
	to := bankOf(u)
	all := strings.Join(text, "\n")
	for _, c := range w.bank.credentials() {
		if c.bank != to && strings.Contains(all, c.text) {
			return viol("credential-sent", "the %s is sent to %s", c.what, urlOnly(u))
		}
	}
	return nil
}

func urlOnly(u string) string {
	s, _, _ := strings.Cut(u, "?")
	return s
}

// printed finds a credential in what a command prints.
func printed(w *World, rs []*procResult) *Violation {
	for _, r := range rs {
		for _, c := range w.bank.credentials() {
			for _, o := range []struct {
				name string
				text []byte
			}{{"standard output", r.Stdout}, {"standard error", r.Stderr}} {
				if i := strings.Index(string(o.text), c.text); i >= 0 {
					return viol("credential-printed", "the %s is printed on %s: %q", c.what, o.name, string(o.text[max(0, i-60):min(len(o.text), i+60)]))
				}
			}
		}
	}
	return nil
}

// damaged runs a command on a state file that does not read, which is put back
// afterwards.
func (s *Sync) damaged(x *Exec, st *Step) *Violation {
	w := x.w
	good, ok := w.fs.get(s.path)
	doc := s.inflated(good)
	if !ok || doc == nil {
		return nil
	}
	x.sig = true
	x.note("the state file is damaged: %s at %d permille", st.S["how"], st.n("permille"))
	at := len(doc) * int(st.n("permille")) / 1000
	switch st.S["how"] {
	case "cut":
		doc = doc[:at]
	case "drop":
		doc = append(append([]byte{}, doc[:at]...), doc[min(at+1, len(doc)):]...)
	case "type":
		var m map[string]any
		if json.Unmarshal(doc, &m) == nil && len(m) > 0 {
			k := sortedKeys(m)
			m[k[at%len(k)]] = 7
			doc, _ = json.MarshalIndent(m, "", "  ")
		}
	}
	mode := w.fs.lookup(s.path).mode
	s.installBytes(w, doc)
	w.fs.syncAll()
	var v *Violation
	w.httpHook = func(p *proc, method, url string, hdr map[string]string, body string) {
		if v == nil {
			v = sentAway(w, url, hdr, body)
		}
	}
	r := w.run(st.Cmds[0])
	w.httpHook = nil
	w.fs.put(s.path, good)
	w.fs.lookup(s.path).mode = mode
	w.fs.syncAll()
	if !r.ok() {
		x.probe("state file that does not read")
	}
	if v != nil {
		return v
	}
	return printed(w, []*procResult{r})
}
