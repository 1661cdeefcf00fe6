package main

import (
	"fmt"
	"maps"
	"sort"
	"strings"
)

// A machine with a ledger made of several files, prices, a configuration with
// macros, import and generation definitions, statements to import, and the
// commands a user runs on them.

type lworld struct {
	files   map[string]string // ledger files: path -> text
	order   []string          // paths in the order they are read
	aux     map[string]string // statements, code, style sheets
	accts   []string
	payees  []string
	confEnv map[string]string
}

const mainLedger = "/work/main.ledger"

var (
	lwAccts = []string{"Asset:Bank:Current", "Asset:Bank:Savings", "Asset:Broker:Cash", "Asset:Broker:Shares", "Asset:House",
		"Liability:Card", "Liability:Mortgage:Main", "Income:Salary", "Income:Interest:Bank", "Expense:Food", "Expense:Food:Eating_Out",
		"Expense:Car:Fuel", "Expense:Car:Tax", "Expense:Bills:Phone", "Expense:Kids&Co", "Expense:O'Neil", "Equity:Opening", "Expense:Unknown"}
	lwPayees = []string{"Coffee Shop", "Tesco", "Tesco Stores 2041", "Acme Ltd", "Employer plc", "Caf\u00e9 N\u00e9ro", "\u4e1c\u4eac\u5e97", "Bank of Z\u00fcrich",
		"Rent", "Gas & Power", "O'Neil", "Transfer", "Amazon EU", "Amazon UK", "Petrol"}
	lwCCY = []struct {
		sym  string
		dec  int
		post bool // written after the amount
	}{{"\u00a3", 2, false}, {"USD", 2, true}, {"EUR", 2, true}, {"GOLD", 3, true}, {"\"US 500\"", 1, true}, {"$", 2, false}, {"usd", 2, true}}
)

func pow10(n int) int64 {
	v := int64(1)
	for ; n > 0; n-- {
		v *= 10
	}
	return v
}

func lwAmt(c int, minor int64) string {
	k := lwCCY[c]
	neg := ""
	if minor < 0 {
		neg, minor = "-", -minor
	}
	p := pow10(k.dec)
	whole := fmt.Sprint(minor / p)
	if len(whole) > 3 && minor%7 == 0 {
		whole = whole[:len(whole)-3] + "," + whole[len(whole)-3:]
	}
	num := fmt.Sprintf("%s.%0*d", whole, k.dec, minor%p)
	if k.post {
		return neg + num + " " + k.sym
	}
	return neg + k.sym + num
}

// date of the given day before the world's present
func lwDate(now int64, back int) (y, m, d int) {
	t := civil(now - int64(back)*day)
	return t.y, t.m, t.d
}

type ymd struct{ y, m, d int }

func civil(ns int64) ymd {
	days := ns / day
	if ns%day < 0 {
		days--
	}
	z := days + 719468
	era := z / 146097
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y := yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d := doy - (153*mp+2)/5 + 1
	m := mp + 3
	if m > 12 {
		m -= 12
	}
	if m <= 2 {
		y++
	}
	return ymd{int(y), int(m), int(d)}
}

// buildLedger writes a ledger of n transactions.
func buildLedger(r *rng, now int64, n int, opts map[string]bool) *lworld {
	l := &lworld{files: map[string]string{}, aux: map[string]string{}, accts: lwAccts, payees: lwPayees, confEnv: map[string]string{}}
	if r.chance(1, 3) {
		l.accts, l.payees = append([]string(nil), l.accts...), append([]string(nil), l.payees...)
		for i := 2 + r.intn(6); i > 0; i-- {
			l.accts = append(l.accts, twin(r, r.pick(l.accts), 4))
			l.payees = append(l.payees, twin(r, r.pick(l.payees), 6))
		}
	}
	var main, inc, sub, prices strings.Builder
	main.WriteString("; main ledger\n")
	alias := r.chance(1, 2)
	if alias {
		main.WriteString("alias cur = Asset:Bank:Current\nalias food=Expense:Food\n")
	}
	// acct is how a posting writes its account: by an alias, marked as virtual.
	acct := func(k int) string {
		a := l.acct(r, k)
		switch {
		case alias && r.chance(1, 6):
			a = r.pick([]string{"cur", "food"})
		case r.chance(1, 24):
			a = "[" + a + "]"
		case r.chance(1, 24):
			a = "!" + a
		}
		return a
	}
	tree := r.intn(4) // 0: one file
	if tree >= 1 {
		main.WriteString(r.pick([]string{"include inc/a.ledger\n", "include \"inc/a.ledger\"\n", "include   ./inc/a.ledger\n"}))
		inc.WriteString("; included\n")
	}
	if tree >= 2 {
		inc.WriteString("include sub/c.ledger\n")
	}
	pricesIn := r.chance(3, 4)
	if pricesIn && tree != 0 && r.chance(1, 2) {
		main.WriteString("include prices.ledger\n")
	}
	out := func() *strings.Builder {
		k := 1
		if tree > 0 {
			k = 2
		}
		if tree > 1 {
			k = 3
		}
		switch r.intn(k) {
		case 1:
			return &inc
		case 2:
			return &sub
		}
		return &main
	}
	span := 30 + r.intn(1200)
	for i := 0; i < n; i++ {
		w := out()
		if r.chance(1, 12) {
			w.WriteString(r.pick([]string{"\n", "; a comment line\n", "D \u00a31,000.00\n", "= /foo/\n", "   \n", "\t; indented comment \u20ac\n"}))
		}
		y, m, d := lwDate(now, r.intn(span))
		payee := r.pick(l.payees)
		if r.chance(1, 10) {
			payee = fmt.Sprintf("Shop %d", r.intn(40))
		}
		fmt.Fprintf(w, "%04d/%02d/%02d ", y, m, d)
		if r.chance(1, 5) {
			w.WriteString("* ")
		}
		if r.chance(1, 15) {
			payee = "\"" + payee + "\""
		}
		w.WriteString(payee)
		if r.chance(1, 5) {
			w.WriteString(" ; note \u00e9 " + fmt.Sprint(r.intn(100)))
		}
		w.WriteString("\n")
		ncc := 1
		if r.chance(1, 4) {
			ncc = 2
		}
		if r.chance(1, 20) {
			ncc = 3
		}
		bal := map[int]int64{}
		np := 1 + weighted(r, 6, 2, 1)
		var ccs []int
		for j := 0; j < ncc; j++ {
			ccs = append(ccs, weighted(r, 16, 6, 6, 4, 2, 4, 1))
		}
		for j := 0; j < np || j < ncc; j++ {
			c := ccs[j%len(ccs)]
			v := int64(1 + r.intn(1000000))
			if r.chance(1, 3) {
				v = -v
			}
			bal[c] += v
			note := ""
			if r.chance(1, 16) {
				note = " @ " + lwAmt(r.intn(3), int64(1+r.intn(100000)))
			}
			if r.chance(1, 8) {
				note += "  ; p" + fmt.Sprint(r.intn(50))
			}
			fmt.Fprintf(w, "  %s  %s%s\n", acct(j), lwAmt(c, v), note)
		}
		var open []int
		for c, v := range bal {
			if v != 0 {
				open = append(open, c)
			}
		}
		sort.Ints(open)
		switch {
		case r.chance(1, 2): // implied
			fmt.Fprintf(w, "  %s\n", acct(90))
		default:
			for k, c := range open {
				fmt.Fprintf(w, "  %s  %s\n", acct(91+k), lwAmt(c, -bal[c]))
			}
		}
		if r.chance(2, 3) {
			w.WriteString("\n")
		}
	}
	if pricesIn {
		for i, k := 0, 1+r.intn(30); i < k; i++ {
			y, m, d := lwDate(now, r.intn(span+100))
			unit := r.pick([]string{"USD", "EUR", "GOLD", "USD", "$", "\"US 500\"", "usd"})
			if r.chance(1, 6) {
				fmt.Fprintf(&prices, "P %04d/%02d/%02d 00:00:00 \u00a3 %d.%02d EUR\n", y, m, d, 1+r.intn(2), r.intn(100))
			} else {
				in := r.pick([]string{"\u00a3", "\u00a3", "\u00a3", "CHF ", "JPY ", "AUD "})
				fmt.Fprintf(&prices, "P %04d/%02d/%02d 12:30:00 %s %s%d.%04d\n", y, m, d, unit, in, r.intn(9), 1+r.intn(9999))
			}
		}
	}
	mtext := main.String()
	if pricesIn && !strings.Contains(mtext, "include prices") {
		mtext += prices.String()
	}
	if r.chance(1, 6) && strings.HasSuffix(mtext, "\n") {
		mtext = strings.TrimRight(mtext, "\n") // no newline at the end
	}
	add := func(path, text string) {
		if r.chance(1, 8) {
			text += r.pick([]string{"; the end", "; the end", "\n;", "   ", "\n\t", "= /end/", "D \u00a31.00", "\r\n", "alias end = Asset:End", "\n\n\n"})
		}
		l.files[path] = text
		l.order = append(l.order, path)
	}
	add(mainLedger, mtext)
	if tree >= 1 {
		add("/work/inc/a.ledger", inc.String())
	}
	if tree >= 2 {
		add("/work/inc/sub/c.ledger", sub.String())
	}
	if strings.Contains(mtext, "include prices") {
		add("/work/prices.ledger", prices.String())
	}
	l.statements(r, now)
	return l
}

// twin is another name that is easily taken for s, one of the first n kinds.
func twin(r *rng, s string, n int) string {
	i := strings.LastIndexByte(s, ':') + 1
	switch r.intn(n) {
	case 0:
		return s[:i] + strings.ToLower(s[i:])
	case 1:
		return s[:i] + strings.ToUpper(s[i:])
	case 2:
		return strings.ToLower(s)
	case 3:
		return s + "2"
	case 4:
		return strings.ReplaceAll(s, "e", "e\u0301")
	}
	return strings.ReplaceAll(s, "a", "\u0430") // Cyrillic
}

func (l *lworld) acct(r *rng, k int) string {
	switch {
	case k == 0 && r.chance(1, 2):
		return "Asset:Bank:Current"
	case k == 90:
		return r.pick(l.accts)
	}
	return r.pick(l.accts)
}

// statements writes files to import, scripts and a style sheet.
func (l *lworld) statements(r *rng, now int64) {
	for _, name := range []string{"stmt", "stmt2"} {
		csv, js := l.statement(r, now)
		l.aux["/work/"+name+".csv"] = csv
		l.aux["/work/"+name+".json"] = js
	}
	l.aux["/work/imp.star"] = "def conv():\n    for r in data:\n        add(date=r['Date'], desc=r['Payee'], amt=r['Amount'])\nconv()\n" + strings.Repeat("# padding of the script\n", r.intn(400))
	l.aux["/work/gen.star"] = genScripts[r.intn(len(genScripts))] + strings.Repeat("# padding of the script\n", r.intn(400))
	if r.chance(1, 2) { // statement by statement
		var imp, gen strings.Builder
		for i, k := 0, 2+r.intn(40); i < k; i++ {
			fmt.Fprintf(&imp, "[add(date=r['Date'], desc=r['Payee'] + ' %d', amt=r['Amount']) for r in data[%d:%d]]\n", i, i, i+1)
			fmt.Fprintf(&gen, "add(date='2021-%02d-%02d', desc='Fee %d', amt=%d, ccy='EUR', account='A:B', caccount='C:D')\n", 1+i%12, 1+i%28, i, 1+i)
		}
		l.aux["/work/imp.star"], l.aux["/work/gen.star"] = imp.String(), gen.String()
	}
	l.aux["/work/style.css"] = ".report { color: red; }\n" + strings.Repeat(".pad { margin: 1px; }\n", r.intn(500))
	l.aux["/home/u/g.toml"] = lwConfig
	l.confEnv["GOLEDGER_CONF"] = "/home/u/g.toml"
}

func (l *lworld) statement(r *rng, now int64) (string, string) {
	n := r.intn(40)
	if r.chance(1, 6) {
		n = 150 + r.intn(150)
	}
	var csv, js strings.Builder
	csv.WriteString("Date,Payee,Amount\n")
	js.WriteString("{\"account\": \"x\", \"items\": [")
	for i := 0; i < n; i++ {
		y, m, d := lwDate(now, r.intn(200))
		p := r.pick(l.payees)
		if r.chance(1, 3) {
			p = fmt.Sprintf("Amazon %c%d", 'A'+r.intn(4), r.intn(20))
		}
		a := int64(r.intn(200000)) - 100000
		if a == 0 {
			a = 1
		}
		sign := ""
		if a < 0 {
			sign, a = "-", -a
		}
		amt := fmt.Sprintf("%s%d.%02d", sign, a/100, a%100)
		if n > 100 && r.chance(1, 2000) {
			amt = r.pick([]string{"", "n/a", "1e3", amt + ",x", "\"" + amt, amt + "-"})
		}
		fmt.Fprintf(&csv, "%04d-%02d-%02d,%s,%s\n", y, m, d, p, amt)
		if i > 0 {
			js.WriteString(",")
		}
		fmt.Fprintf(&js, "\n {\"date\": \"%04d/%02d/%02d\", \"payee\": \"%s\", \"amount\": %s, \"z\": null, \"ok\": %v, \"tags\": {\"k%d\": 1, \"a\": 2, \"m\": 3, \"q\": 4}}", y, m, d, p, amt, i%2 == 0, r.intn(9))
	}
	js.WriteString("\n]}\n")
	return csv.String(), js.String()
}

const impCSV = "[add(date=r['Date'], desc=r['Payee'], amt=r['Amount']) for r in data]"
const impJSON = "[add(date=r['date'], desc=r['payee'], amt=r['amount'], note=','.join(r['tags'].keys())) for r in data['items']]"
const impJSONraw = "[add(date=r['date'], desc=r['payee'], amt=str(r['amount']), lnote=str(len(r))) for r in data['items']]"

// impCSVodd are other ways to write the import of a CSV statement.
var impCSVodd = []string{
	"[add(date=r['Date'], desc=r['Payee'], amt=r['Amount'], ccy='USD', note=r['Payee'], lnote='x ' + r['Date']) for r in data]",
	"[add(date=r['Date'], desc=r['Payee'], amt=int(float(r['Amount']) * 100), denom=100) for r in data]",
	"[add(date=r['Date'], desc=r['Payee'], amt=float(r['Amount'])) for r in data]",
	"[add(date=r['Date'], desc=r['Payee'], amt=r['Amount'], amt2='1.25', ccy2='EUR', account2='Asset:Euro') for r in data]",
	"[add(date=r['Date'], desc=r['Payee'], amt=r['Amount'], amt2=3, denom2=8, ccy2='GOLD', account2='Asset:Gold') for r in data]",
	"[error('odd ' + r['Payee']) if r['Payee'].startswith('Amazon A1') else add(date=r['Date'], desc=r['Payee'], amt=r['Amount']) for r in data]",
	"[add(date=r['Date'], desc=r['Payee'], amt=r['Amount'], caccount='Expense:' + r['Payee'][:1]) for r in data if r['Payee'][:1] in ('A', 'T', 'R')]",
}

var genScripts = []string{
	"def g():\n    for t in data.transactions:\n        for p in t:\n            if p.account.startswith('Expense'):\n                add(date=t.date, desc='Gen ' + t.payee, amt=p.amount, ccy=p.ccy, account='Asset:Gen', caccount=p.account)\ng()\n",
	"b = data.since('last year').map('^Expense:.*$', 'Expense:All')\n[add(date=t.date, desc='Sum ' + t.payee, amt=1, ccy='USD', account='A:B', caccount='C:D') for t in b.transactions]\n",
	"b = data.asof('this month')\n[add(date=t.date, desc=t.payee, amt=len(t), ccy='EUR', account='A:B', caccount='C:D') for t in b.transactions]\n",
	"def g():\n    for t in data.transactions:\n        for p in t:\n            if p.ccy == 'USD':\n                add(date=p.date, desc=p.payee, amt=p.balance, ccy=p.ccy, account=p.account, caccount='Equity:Gen', note=t.transaction_note, lnote=p.posting_note + p.transaction_note)\ng()\n",
	"def g():\n    for t in data.transactions:\n        for p in t:\n            add(date=t.date, desc=type(p) + ' ' + str(t), amt=len(t), ccy='EUR', account='A:B', caccount='C:D', note=','.join(dir(p) + dir(t) + dir(data)), lnote=str(p) if p else str(data))\ng()\n",
	"def g():\n    for t in data.transactions:\n        if len(t) > 3:\n            error('split of ' + t.payee)\n        add(date=t.date, desc=t.payee, amt=1, ccy='EUR', account='A:B', caccount='C:D')\ng()\n",
	"b = data.map('^(Asset):.*$', 'Rest', '$1:All')\n[add(date=t.date, desc=t.payee, amt=-t[0].amount, ccy=t[0].ccy, account=t[0].account, caccount='C:D') for t in b.transactions]\n",
	"d = {}\ndef g():\n    for t in data.transactions:\n        for p in t:\n            d[p.account] = d.get(p.account, 0) + p.amount\n    for a in d:\n        add(date='2021-01-01', desc='Total of ' + a, amt=d[a], ccy='EUR', account='A:B', caccount=a)\ng()\n",
}

const lwConfig = `
baseccy = "£"

[macros]
years = ["asof=next year", "since=last year"]
month = ["since=last month", "asof=this month", "map=/^(Expense:[^:]+):.*$/$1/"]
flat = ["map=/^([^:]*):.*$/$1/"]
bad = ["since=last year", "nonsense"]
both = ["flat", "move=/^Expense$/Equity:Shared/0.5/"]

[report]
sum = false
convert = false
type = "Text"
combineby = "none"

[register]
asc = true
type = "Text"
accounts = ["Asset:Bank:Current"]

[importdefs.bank]
description = "Bank"
configtype = "csv"
account = "Asset:Bank:Current"
counteraccount = "Expense:Unknown"
ccy = "£"
dedup = true
reclassify = true
code = "[add(date=r['Date'], desc=r['Payee'], amt=r['Amount']) for r in data]"

[importdefs.bank.params]
header = "true"
delim = ","

[importdefs.web]
description = "Web"
configtype = "json"
account = "Asset:Bank:Current"
counteraccount = "Expense:Unknown"
ccy = "£"
code = "[add(date=r['date'], desc=r['payee'], amt=r['amount']) for r in data['items']]"

[generate.shift]
description = "Shift"
code = "[add(date=t.date, desc='S ' + t.payee, amt=2, ccy='EUR', account='A:B', caccount='C:D') for t in data.transactions]"
`

func (l *lworld) install(w *World) {
	for _, p := range sortedKeys(l.files) {
		w.fs.put(p, []byte(l.files[p]))
	}
	for _, p := range sortedKeys(l.aux) {
		w.fs.put(p, []byte(l.aux[p]))
	}
	w.fs.syncAll()
}

// cmdKinds selects the families of commands a property is about.
type cmdKinds struct {
	register, report, accts, ccy, export, imp, gen int
	today                                          bool // prefer commands that depend on the date
	css                                            bool
	print                                          bool
}

var allCmds = cmdKinds{register: 4, report: 6, accts: 2, ccy: 1, export: 4, imp: 2, gen: 2, css: true}

func (l *lworld) ops(r *rng, today bool) []string {
	var o []string
	n := r.intn(3)
	if today {
		n = 1 + r.intn(3)
	}
	for i := 0; i < n; i++ {
		k := weighted(r, 24, 16, 8, 16, 16, 8, 24, 8, 1)
		if today && r.chance(3, 4) {
			k = []int{3, 4, 6, 7}[r.intn(4)]
		}
		switch k {
		case 0:
			o = append(o, r.pick([]string{"map=/^(Expense:[^:]+):.*$/$1/", "map=/^Asset:.*$/Asset:All/", "map=/^Liability.*$/Debt/Rest/", "map=/Bank/Bk/"}))
		case 1:
			o = append(o, r.pick([]string{"move=/^Expense:(.*)$/Equity:$1/0.25/", "move=/^Income:Salary$/Expense:Tax/0.2/"}))
		case 2:
			o = append(o, r.pick([]string{"mapccy=/USD/EUR/", "mapccy=/^.*$/X/", "mapccy=/^(USD|EUR)$/CASH/", "mapccy=/EUR/£/"}))
		case 3:
			o = append(o, "asof="+l.dateArg(r, today))
		case 4:
			o = append(o, "since="+l.dateArg(r, today))
		case 5:
			o = append(o, r.pick([]string{"depreciate=/^Expense:Car:.*$/Asset:Dep/12/", "depreciate=/^Expense:Bills:(.*)$/Asset:Dep:$1/3/"}))
		case 6:
			if r.chance(1, 2) || today {
				o = append(o, r.pick([]string{"years", "month"}))
			} else {
				o = append(o, r.pick([]string{"flat", "both"}))
			}
		case 7:
			o = append(o, "combine="+r.pick([]string{"today", "today", "today", "yearly", "quarterly", "monthly"}))
		case 8: // refused
			o = append(o, r.pick([]string{"map=/x/", "mapccy=/", "move=/a/b/1.2.3/", "move=/a/b/", "asof=noday", "since=last week", "combine=weekly", "depreciate=/a/b/1.5/", "depreciate=/a/", "nomacro", "bad", "x=y"}))
		}
	}
	return o
}

func (l *lworld) dateArg(r *rng, rel bool) string {
	if rel || r.chance(1, 2) {
		return r.pick([]string{"this", "last", "next"}) + " " + r.pick([]string{"year", "quarter", "month"})
	}
	return fmt.Sprintf("%d-%02d-%02d", 2018+r.intn(4), 1+r.intn(12), 1+r.intn(28))
}

// command draws one command of the allowed families.
func (l *lworld) command(r *rng, k cmdKinds) *Cmd {
	c := &Cmd{Seed: r.u64() >> 1, Env: l.confEnv}
	flag := func(num, den int, s ...string) {
		if r.chance(num, den) {
			c.Args = append(c.Args, s...)
		}
	}
	if r.chance(1, 16) {
		c.Env = maps.Clone(l.confEnv)
		c.Env["LANG"] = r.pick([]string{"de_DE.UTF-8", "fr", "C", "nl_NL"})
	}
	lang := func() { flag(1, 12, "--lang", r.pick([]string{"de", "fr", "nl"})) }
	switch weighted(r, k.register, k.report, k.accts, k.ccy, k.export, k.imp, k.gen) {
	case 0:
		c.Args = []string{"register", "--type=" + r.pick([]string{"Text", "Text", "JSON", "CSV"})}
		flag(1, 2, "--combined")
		flag(1, 4, "--split")
		flag(1, 4, "--convert")
		flag(1, 4, "--count", fmt.Sprint([]int{-3, 3, 100, -100}[r.intn(4)]))
		flag(1, 8, "--zero")
		if k.today {
			flag(3, 4, "--begin", l.dateArg(r, true))
			flag(3, 4, "--asof", l.dateArg(r, true))
		} else {
			flag(1, 4, "--begin", l.dateArg(r, false))
			flag(1, 4, "--asof", l.dateArg(r, false))
		}
		flag(1, 3, "--all")
		flag(1, 3, "--colour=false")
		lang()
		c.Args = append(c.Args, l.ops(r, k.today)...)
		c.Args = append(c.Args, r.pick([]string{"Asset:Bank:Current", "Expense.*", "Asset.*", ".*", "Income:Salary", "Nothing"}))
	case 1:
		t := r.pick([]string{"Text", "Text", "Ledger", "Json", "HTML", "Beancount"})
		c.Args = []string{"report", "--type=" + t}
		if t == "Text" {
			c.Args = append(c.Args, "--sum")
		} else {
			flag(1, 3, "--sum")
		}
		by := r.pick([]string{"yearly", "quarterly", "monthly", "today", "none", "skip", "today"})
		if t == "Text" && (by == "none" || by == "skip") {
			by = "yearly"
		}
		if k.today && r.chance(2, 3) {
			by = "today"
		}
		c.Args = append(c.Args, "--splitby="+by)
		flag(1, 4, "--convert")
		flag(1, 4, "--hidden", r.pick([]string{"Equity", "Expense", "Asset:House"}))
		flag(1, 4, "--credit", "^(Income|Liability|Equity)(:.*)?$")
		flag(1, 4, "--jsonpretty")
		flag(1, 4, "--colour=false")
		if k.css && t == "HTML" {
			flag(1, 2, "--htmlcss", "file:style.css")
		}
		lang()
		c.Args = append(c.Args, l.ops(r, k.today)...)
	case 2:
		c.Args = []string{"accts"}
		flag(1, 2, "--json")
		flag(1, 2, "--all")
		flag(1, 2, r.pick([]string{"Expense", "Asset.*", "^.*$", "Nothing"}))
	case 3:
		c.Args = []string{"ccy"}
	case 4:
		c.Args = []string{"export", "--type=" + r.pick([]string{"Ledger", "Json", "Beancount", "CSV"})}
		flag(1, 3, "--jsonpretty")
		flag(1, 5, "--ccy", "EUR")
		lang()
		c.Args = append(c.Args, l.ops(r, k.today)...)
	case 5:
		c.Args = []string{"import"}
		code := ""
		file := ""
		switch r.intn(5) {
		case 0:
			c.Args = append(c.Args, "bank")
			file = "stmt.csv"
		case 1:
			c.Args = append(c.Args, "web")
			file = "stmt.json"
		case 2:
			c.Args = append(c.Args, "--format=csv:header=true", "-a", "Asset:Bank:Current", "-c", "Expense:Unknown")
			code = r.pick([]string{impCSV, r.pick(impCSVodd), "file:imp.star", "file:/work/imp.star"})
			file = "stmt.csv"
		case 3:
			c.Args = append(c.Args, "--format", "json", "-a", "Asset:Bank:Current", "-c", "Expense:Unknown")
			code = impJSON
			file = "stmt.json"
		case 4:
			c.Args = append(c.Args, "--format", "json", "-a", "Asset:Bank:Savings", "-c", "Expense:Unknown")
			code = impJSONraw
			file = "stmt.json"
		}
		if code != "" {
			if k.print && !strings.HasPrefix(code, "file:") && r.chance(1, 2) {
				code = "print('imported', file)\n" + code
			}
			c.Args = append(c.Args, "--code", code)
		}
		flag(1, 3, "--dedup=false")
		flag(1, 4, "--reclassify=false")
		base := file
		if r.chance(1, 2) {
			c.Stdin = l.aux["/work/"+file]
			file = "-"
		}
		c.Args = append(c.Args, file)
		for i, k := 0, weighted(r, 4, 2, 1); i < k; i++ {
			next := strings.Replace(base, "stmt", "stmt2", r.intn(2))
			if c.Stdin == "" && r.chance(1, 4) {
				c.Stdin = l.aux["/work/"+next]
				next = "-"
			}
			c.Args = append(c.Args, next)
		}
	case 6:
		c.Args = []string{"generate"}
		switch r.intn(4) {
		case 0:
			c.Args = append(c.Args, "shift")
		case 1:
			c.Args = append(c.Args, "--code", "file:gen.star")
		default:
			i := r.intn(len(genScripts))
			if k.today {
				i = 1 + r.intn(2)
			}
			code := genScripts[i]
			if k.print && r.chance(1, 2) {
				code = "print('generating')\n" + code
			}
			c.Args = append(c.Args, "--code", code)
		}
		flag(1, 3, "--dedup=false")
	}
	return c
}
