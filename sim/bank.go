package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"time"
)

// Reference models of the three banks' APIs. They are the "other nodes" of the
// simulation: they hold the truth a sync is compared with.

type bankReq struct {
	t      int64
	kind   string // "token", "data", "auth"
	what   string
	token  string
	status int
	pid    int
}

type Banks struct {
	monzo    *Monzo
	starling *Starling
	nordigen *Nordigen
	log      []bankReq
	lat      *rng
	latMax   int64
}

func newBanks() *Banks {
	return &Banks{monzo: newMonzo(), starling: newStarling(), nordigen: newNordigen(), lat: newRng(7), latMax: 0}
}

func (b *Banks) clone() *Banks {
	l := *b.lat
	return &Banks{monzo: b.monzo.clone(), starling: b.starling.clone(), nordigen: b.nordigen.clone(),
		log: append([]bankReq(nil), b.log...), lat: &l, latMax: b.latMax}
}

func (b *Banks) serve(w *World, method, rawurl string, hdr map[string]string, body string) (int, string, string) {
	u, err := url.Parse(rawurl)
	if err != nil {
		return 400, "text/plain", "bad url"
	}
	form := url.Values{}
	if method == "POST" {
		form, _ = url.ParseQuery(body)
	}
	pid := w.pid
	var st int
	var rb string
	var kind, tok string
	switch u.Host {
	case "api.monzo.com", "auth.monzo.com":
		st, rb, kind, tok = b.monzo.serve(w.now, method, u, hdr, form)
	case "api.starlingbank.com":
		st, rb, kind, tok = b.starling.serve(w.now, method, u, hdr)
	case "ob.nordigen.com":
		st, rb, kind, tok = b.nordigen.serve(w.now, method, u, hdr, form)
	default:
		st, rb = 502, "no such host "+u.Host
	}
	b.log = append(b.log, bankReq{w.now, kind, method + " " + u.Path, tok, st, pid})
	return st, "application/json", rb
}

func bearer(hdr map[string]string) string {
	return strings.TrimPrefix(hdr["Authorization"], "Bearer ")
}

func rfc(t int64) string   { return time.Unix(0, t).UTC().Format(time.RFC3339) }
func rfcMs(t int64) string { return time.Unix(0, t).UTC().Format("2006-01-02T15:04:05.000Z") }
func parseRFC(s string) (int64, bool) {
	t, err := time.Parse(time.RFC3339, s)
	if err != nil {
		return 0, false
	}
	return t.UnixNano(), true
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// expiryGrace is how long past its stated expiry the bank still honours an
// access token (clients only know the expiry to within the network latency).
const expiryGrace = 60 * int64(time.Second)

const (
	sec  = int64(time.Second)
	hour = int64(time.Hour)
	day  = 24 * hour
)

// ---------------------------------------------------------------- Monzo

type mTxn struct {
	ID      string
	Created int64
	Key     int64 // the server's listing order; within a minute of Created
	Amount  int
	Desc    string
	Rev     int
	Gone    bool // no longer listed
}

func (t *mTxn) json() map[string]any {
	m := map[string]any{"id": t.ID, "created": rfcMs(t.Created), "amount": t.Amount, "currency": "GBP",
		"description": t.Desc, "notes": fmt.Sprintf("rev%d", t.Rev), "merchant": nil, "metadata": map[string]any{"n": t.Rev}, "settled": ""}
	switch garnish(m, fmt.Sprint(t.ID, t.Rev), "notes", "amount", 0) {
	case 1:
		m["decline_reason"] = "INSUFFICIENT_FUNDS"
	case 2:
		m["merchant"] = map[string]any{"id": "merch_1", "name": "Caf\u00e9 <&>", "address": map[string]any{"city": "", "lat": 51.5}, "online": true}
		m["settled"] = rfcMs(t.Created + day)
	case 3:
		m["originator"] = false
		m["local_amount"] = -1
		m["local_currency"] = "EUR"
	}
	return m
}

// garnish varies what is in an item the way banks do, by its identifier and version only.
func garnish(m map[string]any, id, text, amount string, zero any) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(id); i++ {
		h = (h ^ uint64(id[i])) * 1099511628211
	}
	h ^= h >> 29
	extra := []string{"", "", "", " <b>&amp; \"q\" \\ /", " \u00fcml\u00e4ut \u65e5\u672c \U0001f600", " \u2028\u2029\u007f\t\n", ""}[h%7]
	if s, ok := m[text].(string); ok && extra != "" {
		m[text] = s + extra
	}
	if h>>8%11 == 0 {
		m[amount] = zero
	}
	if h>>16%13 == 0 {
		m["x"] = []any{nil, true, json.Number("1.5e-7"), map[string]any{}, []any{}, "", json.Number("9007199254740993"), json.Number("-12345678901234567890"), json.Number("0.1234567890123456789")}
	}
	return h >> 24 % 6
}

type mAcct struct {
	ID     string
	Desc   string
	Txns   []*mTxn
	Hidden bool // no longer listed, though still served
}

type mToken struct {
	Issued, Expires int64
	Revoked         bool
	Refresh         string // the refresh token issued with it
	Parent          string // the refresh token that produced it
	Used            bool
}

type Monzo struct {
	Accts          []*mAcct
	Access         map[string]*mToken
	Refresh        map[string]string // live refresh token -> access token it was issued with
	Codes          map[string]bool   // code -> unused
	Authorised     int64             // when the customer last authorised
	Approved       bool
	NeedApproval   bool
	TTL            int64
	ClientID       string
	Secret         string
	n              int
	Rotations      int
	ExpiredUse     int
	RevokedUse     int
	Exchanged      []string
	HistoryLimited bool
	PageLimit      int
}

func newMonzo() *Monzo {
	return &Monzo{Access: map[string]*mToken{}, Refresh: map[string]string{}, Codes: map[string]bool{}, TTL: 6 * hour, ClientID: "cid", Secret: "csecret-93ab77d0", Approved: true, PageLimit: 100}
}

func (m *Monzo) clone() *Monzo {
	c := *m
	c.Accts = nil
	for _, a := range m.Accts {
		x := *a
		x.Txns = make([]*mTxn, len(a.Txns))
		for i, t := range a.Txns {
			y := *t
			x.Txns[i] = &y
		}
		c.Accts = append(c.Accts, &x)
	}
	c.Access = map[string]*mToken{}
	for k, t := range m.Access {
		y := *t
		c.Access[k] = &y
	}
	c.Refresh = map[string]string{}
	for k, v := range m.Refresh {
		c.Refresh[k] = v
	}
	c.Codes = map[string]bool{}
	for k, v := range m.Codes {
		c.Codes[k] = v
	}
	c.Exchanged = append([]string(nil), m.Exchanged...)
	return &c
}

func (m *Monzo) issue(now int64, parent string) (string, string) {
	m.n++
	a := fmt.Sprintf("acc-%d", m.n)
	r := fmt.Sprintf("ref-%d", m.n)
	m.Access[a] = &mToken{Issued: now, Expires: now + m.TTL, Refresh: r, Parent: parent}
	m.Refresh[r] = a
	return a, r
}

// use is called when an access token is presented: its first use makes the
// refresh token it came from, and everything older, void.
func (m *Monzo) use(now int64, a string) int {
	t := m.Access[a]
	if t == nil {
		return 401
	}
	if t.Revoked {
		m.RevokedUse++
		return 401
	}
	if now > t.Expires+expiryGrace {
		m.ExpiredUse++
		return 401
	}
	if !t.Used {
		t.Used = true
		if t.Parent != "" {
			if old, ok := m.Refresh[t.Parent]; ok {
				if o := m.Access[old]; o != nil {
					o.Revoked = true
				}
				delete(m.Refresh, t.Parent)
			}
		}
	}
	return 200
}

func (m *Monzo) serve(now int64, method string, u *url.URL, hdr map[string]string, form url.Values) (int, string, string, string) {
	if u.Path == "/oauth2/token" {
		id, secret := form.Get("client_id"), form.Get("client_secret")
		if h := hdr["Authorization"]; strings.HasPrefix(h, "Basic ") && id == "" {
			// Monzo takes client credentials in the form only.
			_, _ = base64.StdEncoding.DecodeString(h[6:])
			return 401, `{"code":"unauthorized.bad_client","message":"missing client_id"}`, "token", ""
		}
		if id != m.ClientID || secret != m.Secret {
			return 401, `{"code":"unauthorized.bad_client","message":"bad client"}`, "token", ""
		}
		var a, r string
		switch form.Get("grant_type") {
		case "authorization_code":
			code := form.Get("code")
			if !m.Codes[code] {
				return 400, `{"error":"invalid_grant","message":"bad code"}`, "token", ""
			}
			m.Codes[code] = false
			m.Exchanged = append(m.Exchanged, code)
			a, r = m.issue(now, "")
			m.Authorised = now
			if m.NeedApproval {
				m.Approved = false
			}
		case "refresh_token":
			rt := form.Get("refresh_token")
			if _, ok := m.Refresh[rt]; !ok {
				return 401, `{"code":"unauthorized.bad_refresh_token","message":"refresh token is not valid"}`, "token", ""
			}
			// A second renewal from the same refresh token voids the first, unused, pair.
			for k, t := range m.Access {
				if t.Parent == rt && !t.Used {
					t.Revoked = true
					delete(m.Refresh, t.Refresh)
					_ = k
				}
			}
			m.Rotations++
			a, r = m.issue(now, rt)
		default:
			return 400, `{"error":"unsupported_grant_type"}`, "token", ""
		}
		return 200, js(map[string]any{"access_token": a, "client_id": m.ClientID, "expires_in": m.TTL / sec, "refresh_token": r, "token_type": "Bearer", "user_id": "user_1"}), "token", ""
	}
	tok := bearer(hdr)
	if st := m.use(now, tok); st != 200 {
		return st, `{"code":"unauthorized.bad_access_token","message":"bad access token"}`, "data", tok
	}
	if !m.Approved {
		return 403, `{"code":"forbidden.insufficient_permissions"}`, "data", tok
	}
	switch u.Path {
	case "/ping/whoami":
		return 200, js(map[string]any{"authenticated": true, "client_id": m.ClientID, "user_id": "user_1"}), "data", tok
	case "/accounts":
		l := []any{}
		for _, a := range m.Accts {
			if a.Hidden {
				continue
			}
			l = append(l, map[string]any{"id": a.ID, "description": a.Desc, "created": "2019-01-01T00:00:00Z", "closed": false})
		}
		return 200, js(map[string]any{"accounts": l}), "data", tok
	case "/transactions":
		q := u.Query()
		var acct *mAcct
		for _, a := range m.Accts {
			if a.ID == q.Get("account_id") {
				acct = a
			}
		}
		if acct == nil {
			return 404, `{"code":"not_found"}`, "data", tok
		}
		limit := 30
		fmt.Sscanf(q.Get("limit"), "%d", &limit)
		if limit > m.PageLimit {
			limit = m.PageLimit
		}
		since := q.Get("since")
		from := int64(-1 << 62)
		afterKey := -1
		if since != "" {
			if t, ok := parseRFC(since); ok {
				from = t
			} else {
				for i, t := range acct.Txns {
					if t.ID == since {
						afterKey = i
						from = t.Created
					}
				}
				if afterKey < 0 {
					return 400, `{"code":"bad_request.bad_param.since"}`, "data", tok
				}
			}
		}
		if m.HistoryLimited && now-m.Authorised > 300*sec && from < now-90*day && afterKey < 0 {
			return 403, `{"code":"forbidden.verification_required","message":"Verification required"}`, "data", tok
		}
		l := []any{}
		for i, t := range acct.Txns {
			if i <= afterKey || (afterKey < 0 && t.Created < from) || t.Created > now || t.Gone {
				continue
			}
			l = append(l, t.json())
			if len(l) == limit {
				break
			}
		}
		return 200, js(map[string]any{"transactions": l}), "data", tok
	}
	return 404, `{"code":"not_found"}`, "data", tok
}

// add2 restores the server's listing order.
func (a *mAcct) add2() {
	sort.SliceStable(a.Txns, func(i, j int) bool { return a.Txns[i].Key < a.Txns[j].Key })
}

// ---------------------------------------------------------------- Starling

type sItem struct {
	ID      string
	Time    int64
	Updated int64
	Visible int64 // when the API starts to list it
	Amount  int
	Status  string
	Gone    bool
}

func (t *sItem) json(cat string) map[string]any {
	m := map[string]any{"feedItemUid": t.ID, "categoryUid": cat, "transactionTime": rfcMs(t.Time), "updatedAt": rfcMs(t.Updated),
		"amount": map[string]any{"currency": "GBP", "minorUnits": t.Amount}, "direction": "OUT", "status": t.Status, "counterPartyName": "Shop " + t.ID}
	switch garnish(m, fmt.Sprint(t.ID, t.Updated), "counterPartyName", "amount", map[string]any{"currency": "GBP", "minorUnits": 0}) {
	case 1:
		m["direction"] = "IN"
	case 2:
		m["status"] = "DECLINED"
		m["rev"] = t.Status
	case 3:
		m["status"] = "PENDING"
		m["rev"] = t.Status
	case 4:
		m["userNote"] = nil
		m["roundUp"] = map[string]any{"goalCategoryUid": "x", "amount": map[string]any{"currency": "GBP", "minorUnits": 1}}
	}
	return m
}

type sFeed struct {
	Cat, Name string
	Kind      string // main, saving, spending
	Closed    bool
	Items     []*sItem
}

type sAcct struct {
	ID      string
	Rev     int // of its name and identifiers
	Created int64
	Feeds   []*sFeed
	Hidden  bool
}

func (a *sAcct) json() map[string]any {
	m := map[string]any{"accountUid": a.ID, "defaultCategory": a.Feeds[0].Cat, "createdAt": rfcMs(a.Created), "currency": "GBP", "name": "Personal"}
	if a.Rev > 0 {
		m["name"] = fmt.Sprintf("Joint %d", a.Rev)
		if a.Rev%2 == 0 {
			m["accountType"] = "ADDITIONAL"
		}
	}
	return m
}

func (a *sAcct) idents() map[string]any {
	m := map[string]any{"accountIdentifier": "1234", "bankIdentifier": "00-00-00"}
	if a.Rev > 0 {
		m["iban"] = fmt.Sprintf("GB00SRLG%04d", a.Rev)
		if a.Rev%2 == 0 {
			delete(m, "bankIdentifier")
		}
	}
	return m
}

type Starling struct {
	Accts  []*sAcct
	Token  string
	Payees []string
}

func newStarling() *Starling { return &Starling{Token: "pat-5f1c0c7a9b"} }

func (s *Starling) clone() *Starling {
	c := *s
	c.Accts = nil
	for _, a := range s.Accts {
		x := *a
		x.Feeds = nil
		for _, f := range a.Feeds {
			g := *f
			g.Items = nil
			for _, i := range f.Items {
				y := *i
				g.Items = append(g.Items, &y)
			}
			x.Feeds = append(x.Feeds, &g)
		}
		c.Accts = append(c.Accts, &x)
	}
	c.Payees = append([]string(nil), s.Payees...)
	return &c
}

func (s *Starling) serve(now int64, method string, u *url.URL, hdr map[string]string) (int, string, string, string) {
	tok := bearer(hdr)
	if tok != s.Token {
		return 403, `{"error":"invalid_token"}`, "data", tok
	}
	parts := strings.Split(strings.Trim(u.Path, "/"), "/")
	acct := func(id string) *sAcct {
		for _, a := range s.Accts {
			if a.ID == id {
				return a
			}
		}
		return nil
	}
	switch {
	case u.Path == "/api/v2/accounts":
		l := []any{}
		for _, a := range s.Accts {
			if a.Hidden {
				continue
			}
			l = append(l, a.json())
		}
		return 200, js(map[string]any{"accounts": l}), "data", tok
	case u.Path == "/api/v2/payees":
		l := []any{}
		for _, p := range s.Payees {
			l = append(l, map[string]any{"payeeUid": p, "payeeName": "P " + p})
		}
		return 200, js(map[string]any{"payees": l}), "data", tok
	case len(parts) == 5 && parts[2] == "accounts" && parts[4] == "identifiers":
		a := acct(parts[3])
		if a == nil {
			return 404, `{}`, "data", tok
		}
		return 200, js(a.idents()), "data", tok
	case len(parts) == 5 && parts[2] == "account" && parts[4] == "spaces":
		a := acct(parts[3])
		if a == nil {
			return 404, `{}`, "data", tok
		}
		sg, sp := []any{}, []any{}
		for _, f := range a.Feeds {
			if f.Closed {
				continue
			}
			switch f.Kind {
			case "saving":
				sg = append(sg, map[string]any{"savingsGoalUid": f.Cat, "name": f.Name, "totalSaved": map[string]any{"minorUnits": 5}})
			case "spending":
				sp = append(sp, map[string]any{"spaceUid": f.Cat, "name": f.Name, "cardAssociationUid": "x"})
			}
		}
		return 200, js(map[string]any{"savingsGoals": sg, "spendingSpaces": sp}), "data", tok
	case len(parts) == 7 && parts[2] == "feed":
		a := acct(parts[4])
		if a == nil {
			return 404, `{}`, "data", tok
		}
		since, ok := parseRFC(u.Query().Get("changesSince"))
		if !ok {
			return 400, `{"errors":[{"message":"INVALID_CHANGES_SINCE"}]}`, "data", tok
		}
		for _, f := range a.Feeds {
			if f.Cat == parts[6] {
				l := []any{}
				for _, i := range f.Items {
					if i.Updated >= since && i.Visible <= now && !i.Gone {
						l = append(l, i.json(f.Cat))
					}
				}
				return 200, js(map[string]any{"feedItems": l}), "data", tok
			}
		}
		return 404, `{}`, "data", tok
	}
	return 404, `{}`, "data", tok
}

// ---------------------------------------------------------------- Nordigen

type nTxn struct {
	ID     string
	Booked int64
	Amount int
	Rev    int
}

func (t *nTxn) json() map[string]any {
	m := map[string]any{"transactionId": t.ID, "bookingDate": time.Unix(0, t.Booked).UTC().Format("2006-01-02"),
		"transactionAmount": map[string]any{"amount": fmt.Sprintf("%d.00", t.Amount), "currency": "EUR"}, "remittanceInformationUnstructured": fmt.Sprintf("rev%d", t.Rev)}
	switch garnish(m, fmt.Sprint(t.ID, t.Rev), "remittanceInformationUnstructured", "transactionAmount", map[string]any{"amount": "0.00", "currency": "EUR"}) {
	case 1:
		m["valueDate"] = nil
	case 2:
		m["creditorName"] = "Shop"
		delete(m, "bookingDate")
	}
	return m
}

type nAcct struct {
	ID      string
	Booked  []*nTxn
	Pending []*nTxn
	Hidden  bool // not in the requisition (consent being renewed), though still served
}

type Nordigen struct {
	Accts      []*nAcct
	Access     map[string]int64 // token -> expiry
	Refresh    map[string]int64
	SecretID   string
	SecretKey  string
	AccessTTL  int64
	RefreshTTL int64
	Reqs       map[string]string // requisition -> institution
	Linked     bool
	n          int
	ExpiredUse int
	Window     int64
}

func newNordigen() *Nordigen {
	return &Nordigen{Access: map[string]int64{}, Refresh: map[string]int64{}, SecretID: "sid", SecretKey: "skey-4c1de0aa81", AccessTTL: 24 * hour, RefreshTTL: 30 * day, Reqs: map[string]string{}, Window: 90 * day}
}

func (s *Nordigen) clone() *Nordigen {
	c := *s
	c.Accts = nil
	for _, a := range s.Accts {
		x := &nAcct{ID: a.ID, Hidden: a.Hidden}
		for _, t := range a.Booked {
			y := *t
			x.Booked = append(x.Booked, &y)
		}
		for _, t := range a.Pending {
			y := *t
			x.Pending = append(x.Pending, &y)
		}
		c.Accts = append(c.Accts, x)
	}
	c.Access, c.Refresh, c.Reqs = map[string]int64{}, map[string]int64{}, map[string]string{}
	for k, v := range s.Access {
		c.Access[k] = v
	}
	for k, v := range s.Refresh {
		c.Refresh[k] = v
	}
	for k, v := range s.Reqs {
		c.Reqs[k] = v
	}
	return &c
}

func (s *Nordigen) serve(now int64, method string, u *url.URL, hdr map[string]string, form url.Values) (int, string, string, string) {
	p := strings.TrimPrefix(u.Path, "/api/v2")
	switch p {
	case "/token/new/":
		if form.Get("secret_id") != s.SecretID || form.Get("secret_key") != s.SecretKey {
			return 401, `{"detail":"Authentication failed"}`, "token", ""
		}
		s.n++
		a, r := fmt.Sprintf("nacc-%d", s.n), fmt.Sprintf("nref-%d", s.n)
		s.Access[a], s.Refresh[r] = now+s.AccessTTL, now+s.RefreshTTL
		return 200, js(map[string]any{"access": a, "access_expires": s.AccessTTL / sec, "refresh": r, "refresh_expires": s.RefreshTTL / sec}), "token", ""
	case "/token/refresh/":
		r := form.Get("refresh")
		if e, ok := s.Refresh[r]; !ok || now >= e {
			return 401, `{"detail":"Token is invalid or expired"}`, "token", ""
		}
		s.n++
		a := fmt.Sprintf("nacc-%d", s.n)
		s.Access[a] = now + s.AccessTTL
		return 200, js(map[string]any{"access": a, "access_expires": s.AccessTTL / sec}), "token", ""
	}
	tok := bearer(hdr)
	e, ok := s.Access[tok]
	if !ok || now > e+expiryGrace {
		if ok {
			s.ExpiredUse++
		}
		return 401, `{"detail":"Token is invalid or expired"}`, "data", tok
	}
	switch {
	case p == "/institutions":
		l := []any{}
		for i := 0; i < 3; i++ {
			l = append(l, map[string]any{"id": fmt.Sprintf("BANK_%d", i), "name": fmt.Sprintf("Bank %d", i), "bic": "X"})
		}
		return 200, js(l), "data", tok
	case p == "/requisitions/" && method == "POST":
		s.n++
		id := fmt.Sprintf("req-%d", s.n)
		s.Reqs[id] = form.Get("institution_id")
		return 201, js(map[string]any{"id": id, "link": "https://ob.nordigen.com/psd2/start/" + id, "accounts": []any{}, "status": "CR"}), "data", tok
	case strings.HasPrefix(p, "/requisitions/"):
		id := strings.Trim(strings.TrimPrefix(p, "/requisitions/"), "/")
		if _, ok := s.Reqs[id]; !ok {
			return 404, `{"detail":"Not found."}`, "data", tok
		}
		l := []any{}
		if s.Linked {
			for _, a := range s.Accts {
				if a.Hidden {
					continue
				}
				l = append(l, a.ID)
			}
		}
		return 200, js(map[string]any{"id": id, "link": "https://ob.nordigen.com/psd2/start/" + id, "accounts": l, "status": "LN"}), "data", tok
	case strings.HasPrefix(p, "/accounts/"):
		f := strings.Split(strings.Trim(strings.TrimPrefix(p, "/accounts/"), "/"), "/")
		for _, a := range s.Accts {
			if a.ID != f[0] {
				continue
			}
			if len(f) == 1 {
				return 200, js(map[string]any{"id": a.ID, "status": "READY"}), "data", tok
			}
			switch f[1] {
			case "details":
				return 200, js(map[string]any{"account": map[string]any{"iban": "GB00", "currency": "EUR"}}), "data", tok
			case "transactions":
				b, pd := []any{}, []any{}
				for _, t := range a.Booked {
					if t.Booked >= now-s.Window && t.Booked <= now {
						b = append(b, t.json())
					}
				}
				for _, t := range a.Pending {
					pd = append(pd, t.json())
				}
				return 200, js(map[string]any{"transactions": map[string]any{"booked": b, "pending": pd}}), "data", tok
			}
		}
		return 404, `{"detail":"Not found."}`, "data", tok
	}
	return 404, `{"detail":"Not found."}`, "data", tok
}
