From 0f24bbe98ce0aabe1e83b5f9fbd309cd789a7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 01/27] fix: replace the bank state file atomically and durably

SaveToFile truncated the file in place and ignored the errors of closing it
and of finishing the gzip stream, so a crash, a full disk or a power failure
lost the stored history and credentials, and a failed save could be reported
as a success. Write a temporary file, sync it, and rename it into place.
---
 cmd/utils/json.go | 105 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 74 insertions(+), 31 deletions(-)

diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index 03fbf15..253e05c 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"bytes"
 	"compress/gzip"
 	"encoding/json"
 	"fmt"
@@ -105,7 +106,7 @@ func LoadFromFile(file string, data interface{}) error {
 	return nil
 }
 
-func SaveToFile(file string, data interface{}) (oerr error) {
+func SaveToFile(file string, data interface{}) error {
 
 	// Ensure directory exists
 	err := os.MkdirAll(filepath.Dir(file), os.ModePerm)
@@ -113,46 +114,88 @@ func SaveToFile(file string, data interface{}) (oerr error) {
 		return fmt.Errorf("failed mkdir %s: %v", filepath.Dir(file), err)
 	}
 
-	// Open the file
-	fh, err := os.OpenFile(file, os.O_TRUNC|os.O_WRONLY|os.O_CREATE, 0755)
+	// Marshal the JSON bytes
+	b, err := json.MarshalIndent(data, "", "  ")
 	if err != nil {
-		return fmt.Errorf("failed opening %s: %v", file, err)
+		return fmt.Errorf("failed marshalling to json %s: %v", file, err)
 	}
 
-	// Defered closing
+	// Check if it's gz
+	if filepath.Ext(file) == ".gz" {
+		var buf bytes.Buffer
+		gwriter := gzip.NewWriter(&buf)
+		if _, err := gwriter.Write(b); err != nil {
+			return fmt.Errorf("failed compressing %s: %v", file, err)
+		}
+		if err := gwriter.Close(); err != nil {
+			return fmt.Errorf("failed compressing %s: %v", file, err)
+		}
+		b = buf.Bytes()
+	}
+
+	// Write the file
+	if err := WriteFileAtomic(file, b, 0755); err != nil {
+		return fmt.Errorf("failed writing to %s: %w", file, err)
+	}
+
+	return nil
+}
+
+// WriteFileAtomic replaces the contents of file with b: at any moment, and after
+// a failure or a crash at any point, the file has either its previous contents
+// or all of b. When it returns without an error the new contents are on disk.
+// A new file gets the permissions perm, an existing one keeps its own.
+func WriteFileAtomic(file string, b []byte, perm os.FileMode) (oerr error) {
+
+	// Replace the file that a symbolic link points to, not the link
+	if target, err := filepath.EvalSymlinks(file); err == nil {
+		file = target
+	}
+
+	// Write a temporary file next to it
+	var fh *os.File
+	var err error
+	for i := 0; ; i++ {
+		tmp := fmt.Sprintf("%s.%d-%d.tmp", file, os.Getpid(), i)
+		fh, err = os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+		if err == nil {
+			break
+		}
+		if !os.IsExist(err) || i == 1000 {
+			return err
+		}
+	}
 	defer func() {
-		if err := fh.Close(); err != nil {
-			if oerr != nil {
-				oerr = fmt.Errorf("failed closing %s: %v", file, err)
-			}
+		if oerr != nil {
+			fh.Close()
+			os.Remove(fh.Name())
 		}
 	}()
-
-	// Check if it's gz
-	var w io.Writer = fh
-	if filepath.Ext(file) == ".gz" {
-		gwriter := gzip.NewWriter(fh)
-		defer func() {
-			if err := gwriter.Close(); err != nil {
-				if oerr != nil {
-					oerr = fmt.Errorf("failed closing %s: %v", file, err)
-				}
-			}
-		}()
-		w = gwriter
+	if fi, err := os.Stat(file); err == nil {
+		if err := fh.Chmod(fi.Mode().Perm()); err != nil {
+			return err
+		}
+	}
+	if _, err := fh.Write(b); err != nil {
+		return err
+	}
+	if err := fh.Sync(); err != nil {
+		return err
+	}
+	if err := fh.Close(); err != nil {
+		return err
 	}
 
-	// Marshal the JSON bytes
-	b, err := json.MarshalIndent(data, "", "  ")
-	if err != nil {
-		return fmt.Errorf("failed marshalling to json %s: %v", file, err)
+	// Move it into place
+	if err := os.Rename(fh.Name(), file); err != nil {
+		return err
 	}
 
-	// Write the file
-	_, err = w.Write(b)
+	// Make the rename durable
+	dir, err := os.Open(filepath.Dir(file))
 	if err != nil {
-		return fmt.Errorf("failed writing to %s: %v", file, err)
+		return err
 	}
-
-	return nil
+	defer dir.Close()
+	return dir.Sync()
 }
-- 
2.43.0


From 893abd3a6ce7457fa648106e091eb3138216b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 02/27] fix: Monzo download never ended with a page of
 transactions within a minute

Each page starts a minute before the most recent transaction of the previous
one; when a full page spans less than a minute that gives the same page again,
for ever. Continue after the last transaction received in that case.
---
 cmd/download/monzo.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 46699c6..5d887c7 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -271,6 +271,7 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 	}
 
 	var since = ""
+	var sinceTime time.Time
 	for {
 		fmt.Printf("Downloading transactions for account %s... ", accountID)
 
@@ -313,8 +314,15 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 
 		// Use the the time of a minute before the most recent transaction --
 		// Bug in Monzo API, unfortunately.
-		since = created.Add(-1 * time.Second * 60).Format(time.RFC3339)
-
+		nextTime := created.Add(-1 * time.Second * 60).Truncate(time.Second)
+		if nextTime.After(sinceTime) {
+			sinceTime = nextTime
+			since = nextTime.Format(time.RFC3339)
+		} else {
+			// More than a page of transactions within that minute -- the time
+			// doesn't get us any further, continue after the last one received.
+			since = trans.Trans[len(trans.Trans)-1].ID
+		}
 	}
 
 	return nil
-- 
2.43.0


From 0856d91f333a9f38919eadca15fca2f82f17a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 03/27] fix: save a Monzo token that is renewed while
 downloading

Renewing revokes the previous refresh token. The HTTP client renews by itself
when the token expires (or is about to) during a download, and that token was
only saved at the very end: a failure in between locked the user out.
---
 cmd/download/monzo.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 5d887c7..e23533b 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -182,15 +182,50 @@ func (m *MonzoDownload) NewMonzoClient(file string) (*MonzoClient, error) {
 		}
 	}
 
-	// New client
+	// New client -- the token can expire while it is in use
+	src := &monzoTokenSource{
+		src:   conf.TokenSource(ctx, config.Token),
+		file:  file,
+		token: config.Token,
+	}
 	return &MonzoClient{
-		client: conf.Client(ctx, config.Token),
+		client: oauth2.NewClient(ctx, src),
 		file:   file,
 		data:   &config,
 		config: m,
 	}, nil
 }
 
+// monzoTokenSource saves a renewed token in the state file before it is used, as
+// that revokes the previous one.
+type monzoTokenSource struct {
+	src   oauth2.TokenSource
+	file  string
+	token *oauth2.Token
+}
+
+func (s *monzoTokenSource) Token() (*oauth2.Token, error) {
+	newToken, err := s.src.Token()
+	if err != nil {
+		return nil, err
+	}
+	if newToken.AccessToken == s.token.AccessToken {
+		return newToken, nil
+	}
+
+	// Only the token -- what has been downloaded is saved once complete.
+	var saved MonzoData
+	if err := utils.LoadFromFile(s.file, &saved); err != nil {
+		return nil, err
+	}
+	saved.Token = newToken
+	if err := utils.SaveToFile(s.file, &saved); err != nil {
+		return nil, fmt.Errorf("failed saving: %w", err)
+	}
+	*s.token = *newToken
+	return newToken, nil
+}
+
 //
 // STRUCTURES
 //
-- 
2.43.0


From 2b55983757bdc5f5f29ffe8efa6f5d7eed8d9eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 04/27] fix: a NUL byte in a ledger is an error, not the end of
 the file

The lexer used the NUL character as its end-of-file mark, so a ledger of
which a part was replaced by NUL bytes (as file systems leave after a power
failure) was silently read up to there and reports were incomplete.
---
 loader/lexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 9348205..c5ad7fb 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -18,7 +18,7 @@ type basicReader struct {
 	col    int
 }
 
-const eof = rune(0)
+const eof = rune(-1)
 const eol = rune('\n')
 
 func newRuneReader(r *bufio.Reader) *basicReader {
@@ -111,6 +111,8 @@ func (rr *basicReader) next() rune {
 		r = eof
 	} else if err != nil {
 		log.Fatal(err)
+	} else if r == 0 {
+		rr.stop("unexpected NUL character (damaged file?)")
 	}
 	rr.ch = r
 	if rr.ch == eol {
-- 
2.43.0


From 886c35b77f7051fe0376794df3bb2ed1bbf44cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 05/27] fix: a failed write of a report, listing or export is
 an error

Write errors of standard output were ignored, so a report cut short by a
full disk or a failing device still ended with exit status 0.
---
 cmd/accounts/accounts.go      |  6 ++----
 cmd/app/app.go                | 12 +++++++++++-
 cmd/app/print.go              | 35 +++++++++++++++++++++++++++--------
 cmd/currencies/currencies.go  |  4 +++-
 cmd/export/beancount.go       |  2 +-
 cmd/export/csv.go             |  2 +-
 cmd/export/ledger.go          |  2 +-
 cmd/register/register.go      |  2 +-
 cmd/register/show_register.go |  4 +---
 cmd/reports/beancount.go      |  2 +-
 cmd/reports/html.go           |  2 +-
 cmd/reports/ledger.go         |  2 +-
 cmd/reports/text.go           |  4 +---
 script/starlark.go            |  6 ++++--
 14 files changed, 56 insertions(+), 29 deletions(-)

diff --git a/cmd/accounts/accounts.go b/cmd/accounts/accounts.go
index 1712049..04c2433 100644
--- a/cmd/accounts/accounts.go
+++ b/cmd/accounts/accounts.go
@@ -37,17 +37,15 @@ func Add(cmd *cobra.Command, app *rapp.App) {
 			for _, acct := range b.Accounts(regex, !app.All) {
 				accts = append(accts, acct)
 			}
-			bp.PrintJSON(accts, true)
+			return bp.PrintJSON(accts, true)
 		} else {
 			rows := make([][]rapp.ColumnValue, 0, 100)
 			rows = append(rows, []rapp.ColumnValue{rapp.ColumnString(bp.Ansi(rapp.BlueUL, "Account"))})
 			for _, acct := range b.Accounts(regex, !app.All) {
 				rows = append(rows, []rapp.ColumnValue{rapp.ColumnString(acct)})
 			}
-			bp.PrintColumns(rows, []bool{false})
+			return bp.PrintColumns(rows, []bool{false})
 		}
-
-		return nil
 	}
 
 	cmd.AddCommand(ncmd)
diff --git a/cmd/app/app.go b/cmd/app/app.go
index 48e2138..b6b45c0 100644
--- a/cmd/app/app.go
+++ b/cmd/app/app.go
@@ -123,7 +123,17 @@ func initialiseLess(w io.Writer) io.Writer {
 		return nil
 	}
 
-	return stdin
+	return pagerWriter{stdin}
+}
+
+// pagerWriter ignores write errors: it is fine to leave the pager early
+type pagerWriter struct {
+	w io.Writer
+}
+
+func (p pagerWriter) Write(b []byte) (int, error) {
+	_, _ = p.w.Write(b)
+	return len(b), nil
 }
 
 // Load the root application cobra command
diff --git a/cmd/app/print.go b/cmd/app/print.go
index 0c5feac..c25ea93 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -39,6 +39,7 @@ func init() {
 // accounting reports
 type BookPrinter struct {
 	w      io.Writer
+	err    error // first error writing to w
 	pr     *message.Printer
 	decs   map[string]int
 	colour bool
@@ -73,14 +74,30 @@ func (b *BookPrinter) Width() (int, int) {
 	return termWidth, termHeight
 }
 
+// Write to the output. After the first failure nothing more is written.
 func (b *BookPrinter) Write(p []byte) (int, error) {
-	return b.w.Write(p)
+	if b.err != nil {
+		return 0, b.err
+	}
+	n, err := b.w.Write(p)
+	if err != nil {
+		b.err = err
+	}
+	return n, err
+}
+
+// Err returns the first error writing the output (if any).
+func (b *BookPrinter) Err() error {
+	if b.err != nil {
+		return fmt.Errorf("error writing output: %w", b.err)
+	}
+	return nil
 }
 
 // Normal Printf() but to specified io.Writer and formatting
 // numbers in a locale-specific way
 func (b *BookPrinter) Printf(format string, a ...interface{}) (n int, err error) {
-	return b.pr.Fprintf(b.w, format, a...)
+	return b.pr.Fprintf(b, format, a...)
 }
 
 // Normal Sprintf() but formatting numbers in a locale-specific way
@@ -120,7 +137,7 @@ func (b *BookPrinter) PrintCSV(rows [][]string) error {
 
 	csvwrite.Flush()
 
-	return nil
+	return csvwrite.Error()
 }
 
 type ColumnValue interface {
@@ -179,7 +196,7 @@ func (v ColumnRightString) Pad(width int) string {
 	return PadString(string(v), width, false)
 }
 
-func (b *BookPrinter) PrintColumns(rows [][]ColumnValue, shrinkToTerm []bool) {
+func (b *BookPrinter) PrintColumns(rows [][]ColumnValue, shrinkToTerm []bool) error {
 
 	// Initialise output
 	if termHeight < len(rows) {
@@ -242,18 +259,20 @@ func (b *BookPrinter) PrintColumns(rows [][]ColumnValue, shrinkToTerm []bool) {
 	// Write out columns
 	for i := 0; i < len(rows); i++ {
 		if rows[i] == nil {
-			b.w.Write([]byte("\n"))
+			b.Write([]byte("\n"))
 			continue
 		}
 		for j := 0; j < len(colWidths); j++ {
-			b.w.Write([]byte(rows[i][j].Pad(colWidths[j])))
+			b.Write([]byte(rows[i][j].Pad(colWidths[j])))
 			if j < (len(colWidths) - 1) {
-				b.w.Write([]byte(" "))
+				b.Write([]byte(" "))
 			} else {
-				b.w.Write([]byte("\n"))
+				b.Write([]byte("\n"))
 			}
 		}
 	}
+
+	return b.Err()
 }
 
 // Format the number correctly based on the symbol in a locale-specific
diff --git a/cmd/currencies/currencies.go b/cmd/currencies/currencies.go
index 7989639..16c499c 100644
--- a/cmd/currencies/currencies.go
+++ b/cmd/currencies/currencies.go
@@ -21,7 +21,9 @@ func Add(root *cobra.Command, app *app.App) {
 		}
 
 		for ccy, dec := range b.GetCCYDecimals() {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, dec)
+			if _, err := fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, dec); err != nil {
+				return err
+			}
 		}
 
 		return nil
diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index b84366e..3aff26e 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -92,5 +92,5 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		}
 	}
 
-	return nil
+	return b.Err()
 }
diff --git a/cmd/export/csv.go b/cmd/export/csv.go
index dfc28ba..37ae9df 100644
--- a/cmd/export/csv.go
+++ b/cmd/export/csv.go
@@ -40,5 +40,5 @@ func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
 
 	csvwrite.Flush()
 
-	return nil
+	return csvwrite.Error()
 }
diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index e6429a3..08153fb 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -49,5 +49,5 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 		}
 	}
 
-	return nil
+	return b.Err()
 }
diff --git a/cmd/register/register.go b/cmd/register/register.go
index 649cd66..2aca4f1 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -117,6 +117,6 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 		}
 	}
 
-	return nil
+	return bp.Err()
 
 }
diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index f7e338f..02f560b 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -102,9 +102,7 @@ func ShowText(b *app.BookPrinter, report book.RegistryReport, withAcct bool, wit
 		rows = append(rows, row)
 	}
 
-	b.PrintColumns(rows, fmts)
-
-	return nil
+	return b.PrintColumns(rows, fmts)
 }
 func ShowCSV(b *app.BookPrinter, report book.RegistryReport) error {
 
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index ee2eb09..0a518ed 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -79,5 +79,5 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 		b.Printf("\n")
 	}
-	return nil
+	return b.Err()
 }
diff --git a/cmd/reports/html.go b/cmd/reports/html.go
index 9ec348d..36c4f46 100644
--- a/cmd/reports/html.go
+++ b/cmd/reports/html.go
@@ -108,7 +108,7 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 	b.Printf("</div>\n")
 	b.Printf("</body></html>\n")
 
-	return nil
+	return b.Err()
 }
 
 const styleSheet = `
diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index 07d497a..62b543f 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -34,5 +34,5 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 		b.Printf("\n")
 	}
-	return nil
+	return b.Err()
 }
diff --git a/cmd/reports/text.go b/cmd/reports/text.go
index e9dc924..be2089e 100644
--- a/cmd/reports/text.go
+++ b/cmd/reports/text.go
@@ -75,7 +75,5 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 	}
 
-	b.PrintColumns(rows, fmts)
-
-	return nil
+	return b.PrintColumns(rows, fmts)
 }
diff --git a/script/starlark.go b/script/starlark.go
index 86ae09a..d62e253 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -11,8 +11,10 @@ import (
 	"os"
 )
 
-func Print(_ *starlark.Thread, msg string) {
-	fmt.Printf("; %s\n", msg)
+func Print(thread *starlark.Thread, msg string) {
+	if _, err := fmt.Printf("; %s\n", msg); err != nil {
+		thread.Cancel(fmt.Sprintf("error writing output: %v", err))
+	}
 }
 
 var userError = errors.New("user code")
-- 
2.43.0


From e9d6eb129bbc39ac53703c86d4af4d9899f65e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 06/27] fix: the order of a hash table does not reach a report

The currencies list, the beancount open and close lines, the prices that
an export lists, the currencies that an elided amount splits into, the
keys of a JSON statement and the account that reclassify picks among
equals all came in the order of a Go map, so that the same command on
the same ledger printed something else every time. Renaming currencies
could also rename a price twice.
---
 book/book.go                 |  6 ++++++
 book/book_reclassify.go      | 17 +++++++++++++----
 book/book_utils.go           | 16 +++++++++++++---
 cmd/currencies/currencies.go | 12 ++++++++++--
 cmd/export/beancount.go      |  9 ++++++++-
 cmd/reports/beancount.go     |  9 ++++++++-
 loader/parser.go             | 10 +++++++++-
 script/convert.go            |  9 ++++++++-
 8 files changed, 75 insertions(+), 13 deletions(-)

diff --git a/book/book.go b/book/book.go
index 036f9ac..08bd116 100644
--- a/book/book.go
+++ b/book/book.go
@@ -35,6 +35,12 @@ func (b *Book) GetPricePairs() []PricePair {
 	for pair, _ := range b.prices.data {
 		pairs = append(pairs, pair)
 	}
+	sort.Slice(pairs, func(i, j int) bool {
+		if pairs[i].Unit != pairs[j].Unit {
+			return pairs[i].Unit < pairs[j].Unit
+		}
+		return pairs[i].CCY < pairs[j].CCY
+	})
 
 	return pairs
 }
diff --git a/book/book_reclassify.go b/book/book_reclassify.go
index 79091b3..7daea5c 100644
--- a/book/book_reclassify.go
+++ b/book/book_reclassify.go
@@ -1,5 +1,7 @@
 package book
 
+import "sort"
+
 // Reclassify counter-accounts in two-posting transactions in the book.
 //
 // Where the refacct is used in two-posting transactions in the ref book
@@ -52,14 +54,21 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		max := 0
 		macct := ""
 		for cacct, k := range caccts {
-			if k > max {
-				k = max
+			if k > max || (k == max && cacct < macct) {
+				max = k
 				macct = cacct
 			}
 		}
 		payee_mapping[payee] = macct
 	}
 
+	// Equally good matches are decided by the order of the payees
+	payees := make([]string, 0, len(payee_mapping))
+	for payee := range payee_mapping {
+		payees = append(payees, payee)
+	}
+	sort.Strings(payees)
+
 	for _, trans := range b.Transactions() {
 		if len(trans) != 2 {
 			continue
@@ -77,11 +86,11 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 
 		max_match := 0.0
 		max_cacct := ""
-		for p, c := range payee_mapping {
+		for _, p := range payees {
 			d := dist(trans.GetPayee(), p)
 			if d > max_match {
 				max_match = d
-				max_cacct = c
+				max_cacct = payee_mapping[p]
 			}
 		}
 
diff --git a/book/book_utils.go b/book/book_utils.go
index cbdc0a3..a3dfd13 100644
--- a/book/book_utils.go
+++ b/book/book_utils.go
@@ -40,7 +40,9 @@ func (b *Book) RegexCCY(search string, replace string) {
 	})
 
 	// Map the prices
-	for ccypair, pl := range b.prices.data {
+	data := make(map[PricePair]PriceList)
+	renamed := make(map[PricePair]PricePair)
+	for _, ccypair := range b.GetPricePairs() {
 		newpair := ccypair
 		if re.MatchString(ccypair.Unit) {
 			newpair.Unit = re.ReplaceAllString(ccypair.Unit, replace)
@@ -49,11 +51,19 @@ func (b *Book) RegexCCY(search string, replace string) {
 			newpair.CCY = re.ReplaceAllString(ccypair.CCY, replace)
 		}
 		if newpair.Unit == ccypair.Unit && newpair.CCY == ccypair.CCY {
+			data[ccypair] = b.prices.data[ccypair]
 			continue
 		}
-		b.prices.data[newpair] = pl
-		delete(b.prices.data, ccypair)
+		renamed[ccypair] = newpair
 	}
+
+	// A renamed pair takes the place of one that already has the name
+	for _, ccypair := range b.GetPricePairs() {
+		if newpair, ok := renamed[ccypair]; ok {
+			data[newpair] = b.prices.data[ccypair]
+		}
+	}
+	b.prices.data = data
 }
 
 func (b *Book) FilterByDateSince(minDate Date) {
diff --git a/cmd/currencies/currencies.go b/cmd/currencies/currencies.go
index 16c499c..4dbb433 100644
--- a/cmd/currencies/currencies.go
+++ b/cmd/currencies/currencies.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/spf13/cobra"
+	"sort"
 )
 
 func Add(root *cobra.Command, app *app.App) {
@@ -20,8 +21,15 @@ func Add(root *cobra.Command, app *app.App) {
 			return err
 		}
 
-		for ccy, dec := range b.GetCCYDecimals() {
-			if _, err := fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, dec); err != nil {
+		decs := b.GetCCYDecimals()
+		ccys := make([]string, 0, len(decs))
+		for ccy := range decs {
+			ccys = append(ccys, ccy)
+		}
+		sort.Strings(ccys)
+
+		for _, ccy := range ccys {
+			if _, err := fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy]); err != nil {
 				return err
 			}
 		}
diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index 3aff26e..5458084 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -53,7 +54,13 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 	}
 
 	// Account open close
-	for acct, stats := range lstats {
+	accts := make([]string, 0, len(lstats))
+	for acct := range lstats {
+		accts = append(accts, acct)
+	}
+	sort.Strings(accts)
+	for _, acct := range accts {
+		stats := lstats[acct]
 		b.Printf("%s open %s\n", stats.first, acct)
 		if stats.isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index 0a518ed..c9fa7bf 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -45,7 +46,13 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 	}
 
-	for acct, stats := range lstats {
+	accts := make([]string, 0, len(lstats))
+	for acct := range lstats {
+		accts = append(accts, acct)
+	}
+	sort.Strings(accts)
+	for _, acct := range accts {
+		stats := lstats[acct]
 		b.Printf("%s open %s\n", stats.first, acct)
 		if stats.isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
diff --git a/loader/parser.go b/loader/parser.go
index 37158bb..b475a7a 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -9,6 +9,7 @@ import (
 	"math/big"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"unicode"
 )
@@ -325,7 +326,14 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 	if ccy == "" {
 		// ASSERT: dec should be 0
 		var ZERO big.Int
-		for ccy, dec := range loader.GetLastCCYBals() {
+		bals := loader.GetLastCCYBals()
+		ccys := make([]string, 0, len(bals))
+		for ccy := range bals {
+			ccys = append(ccys, ccy)
+		}
+		sort.Strings(ccys)
+		for _, ccy := range ccys {
+			dec := bals[ccy]
 			if dec.Num().Cmp(&ZERO) != 0 {
 				var x big.Rat
 				x.Neg(dec)
diff --git a/script/convert.go b/script/convert.go
index 39f569d..b66bb61 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -7,6 +7,7 @@ import (
 	"go.starlark.net/starlark"
 	"io"
 	"math/big"
+	"sort"
 )
 
 type StarlarkReader func(r io.Reader) (starlark.Value, error)
@@ -35,7 +36,13 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 		return starlark.NewList(newarr), nil
 	case map[string]interface{}:
 		newdict := starlark.NewDict(len(v))
-		for k, nv := range v {
+		keys := make([]string, 0, len(v))
+		for k := range v {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+		for _, k := range keys {
+			nv := v[k]
 			sv, err := jsonToStarlark(nv)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 6e43559f7d5753e97a7e886e203a81c352affd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 07/27] fix: a command sees one calendar day

Every relative date, and every transaction that combine=today dates,
read the clock again, so that a command running over midnight mixed two
days: 'last month' to 'this month' could be two months or none.
---
 book/book.go             | 17 ++++++++++++++++-
 book/builder.go          |  1 +
 book/date.go             |  6 +++++-
 book/registry.go         |  4 +---
 cmd/app/book_op.go       |  4 ++--
 cmd/register/register.go |  4 ++--
 script/book_op.go        |  4 ++--
 7 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/book/book.go b/book/book.go
index 08bd116..bbd84da 100644
--- a/book/book.go
+++ b/book/book.go
@@ -14,6 +14,7 @@ type Book struct {
 	trans  []Transaction
 	prices *priceBook
 	ccy    map[string]int
+	today  Date
 }
 
 func (b *Book) Transactions() []Transaction {
@@ -54,15 +55,29 @@ func (b *Book) Duplicate() *Book {
 	copy(newp, b.post)
 	newt := make([]Transaction, len(b.trans), len(b.trans))
 	copy(newt, b.trans)
-	return &Book{newp, newt, b.prices, b.ccy}
+	return &Book{newp, newt, b.prices, b.ccy, b.today}
 }
 
 func (b *Book) GetCCYDecimals() map[string]int {
 	return b.ccy
 }
 
+// Today is the day on which the book was built. Everything about a book that depends
+// on today uses this, so that it's the same day throughout.
+func (b *Book) Today() Date {
+	return b.today
+}
+
+// DateFromString is the date, relative dates being relative to the day of the book
+func (b *Book) DateFromString(date string) Date {
+	return dateFromString(date, b.Today)
+}
+
 func (b *Book) SplitBy(by string) {
 	b.MapTransaction(func(date Date, payee string) (Date, string) {
+		if by == "today" {
+			return b.today, ""
+		}
 		return date.Floor(by), ""
 	})
 }
diff --git a/book/builder.go b/book/builder.go
index 6d73cf4..910dd34 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -46,6 +46,7 @@ func (b *Builder) Build() *Book {
 		trans:  make([]Transaction, len(b.post), len(b.post)),
 		prices: b.prices.build(),
 		ccy:    rmap,
+		today:  GetToday(),
 	}
 
 	// Compact the book
diff --git a/book/date.go b/book/date.go
index 5aa2bd0..fced92a 100644
--- a/book/date.go
+++ b/book/date.go
@@ -90,6 +90,10 @@ func (date *Date) Type() string {
 }
 
 func DateFromString(date string) Date {
+	return dateFromString(date, GetToday)
+}
+
+func dateFromString(date string, today func() Date) Date {
 	mat := dateYYYYMMDD.FindStringSubmatch(date)
 	if mat != nil {
 		year, _ := strconv.Atoi(mat[1])
@@ -114,7 +118,7 @@ func DateFromString(date string) Date {
 
 	mat = date_desc_re.FindStringSubmatch(date)
 	if mat != nil {
-		d := GetToday()
+		d := today()
 		diff := 0
 		if mat[1] == "last" {
 			diff = -1
diff --git a/book/registry.go b/book/registry.go
index 62fea97..4236114 100644
--- a/book/registry.go
+++ b/book/registry.go
@@ -28,9 +28,7 @@ type RegistryEntry struct {
 	BaseBalance *big.Rat  // Total balance to date across all CCYs converted to BaseCCY (recalculated each time)
 }
 
-func (rep *RegistryReport) FilterByDate(mindate, maxdate string) {
-	min := DateFromString(mindate)
-	max := DateFromString(maxdate)
+func (rep *RegistryReport) FilterByDate(min, max Date) {
 	if min == 0 && max == 0 {
 		return
 	}
diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 8ee9a44..6229684 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -142,14 +142,14 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		b.AdjustPost(args[1], args[2], factor)
 		return nil
 	case "asof=":
-		d := book.DateFromString(op_act)
+		d := b.DateFromString(op_act)
 		if d == book.Date(0) {
 			return fmt.Errorf("asof date '%s', invalid", op_act)
 		}
 		b.FilterByDateAsof(d)
 		return nil
 	case "since=":
-		d := book.DateFromString(op_act)
+		d := b.DateFromString(op_act)
 		if d == book.Date(0) {
 			return fmt.Errorf("since date '%s', invalid", op_act)
 		}
diff --git a/cmd/register/register.go b/cmd/register/register.go
index 2aca4f1..6795235 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -100,7 +100,7 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 			return fmt.Errorf("invalid regex: '%s': %w", arg, err)
 		}
 		rep = b.ExtractRegister(rapp.BaseCCY, re, reg.Split)
-		rep.FilterByDate(reg.BeginDate, reg.EndDate)
+		rep.FilterByDate(b.DateFromString(reg.BeginDate), b.DateFromString(reg.EndDate))
 		return ShowReport(bp, rep, reg.Type, reg.Count, reg.Asc, true, true)
 	}
 
@@ -111,7 +111,7 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 			return fmt.Errorf("failed compiling re for account '%s': %w", acct, err)
 		}
 		rep = b.ExtractRegister(rapp.BaseCCY, acctRe, reg.Split)
-		rep.FilterByDate(reg.BeginDate, reg.EndDate)
+		rep.FilterByDate(b.DateFromString(reg.BeginDate), b.DateFromString(reg.EndDate))
 		if err := ShowReport(bp, rep, reg.Type, reg.Count, reg.Asc, false, true); err != nil {
 			return fmt.Errorf("error writing report '%s': %w", acct, err)
 		}
diff --git a/script/book_op.go b/script/book_op.go
index 0773809..371052b 100644
--- a/script/book_op.go
+++ b/script/book_op.go
@@ -41,7 +41,7 @@ var asoff = starlark.NewBuiltin("asof",
 		if !ok {
 			return starlark.None, fmt.Errorf("%w: %s", userError, "bound to not a book")
 		}
-		dstr := book.DateFromString(date)
+		dstr := bb.b.DateFromString(date)
 		if dstr == book.Date(0) {
 			return starlark.None, fmt.Errorf("invalid date: '%s'", date)
 		}
@@ -63,7 +63,7 @@ var sincef = starlark.NewBuiltin("since",
 		if !ok {
 			return starlark.None, fmt.Errorf("%w: %s", userError, "bound to not a book")
 		}
-		dstr := book.DateFromString(date)
+		dstr := bb.b.DateFromString(date)
 		if dstr == book.Date(0) {
 			return starlark.None, fmt.Errorf("invalid date: '%s'", date)
 		}
-- 
2.43.0


From 9b650120f473728f5bcb859abdc518a99d9a0bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 08/27] fix: the default configuration is accepted by the next
 run

Macros are a section of their own since they apply to every command. The
default configuration that the first run writes still had them under
report, so that every following run failed.
---
 cmd/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/config.go b/cmd/config.go
index 46e6ad8..0a134f8 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -86,7 +86,7 @@ The configuration file mirrors largely mirrors parameters available
 on the command line.
 
 There are two notable exceptions:
-  - report.macros
+  - macros
     This section defines macros for the report (set of operations) that
     can be used on the command line arguments or by other macros. This
     is how complex reports can be built up.
@@ -127,7 +127,7 @@ sum =       true
 convert =   true
 credit =    "^(Income|Trading|Liability|Equity)(:.*)?$"
 
-[report.macros]
+[macros]
 macroA = [
 	"book operation A",
 	"book operation B",
-- 
2.43.0


From 2ed357f6b9da2985d557c4d128e25ab92db895b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 09/27] fix: create the default configuration atomically

Being killed while the file was written, or a full disk, left a part of
it, with which no later run would work or which it took for settings.
Runs that overlapped could read the unfinished file, and a file created
in the meantime was overwritten.
---
 cmd/config.go     | 15 ++++++++-
 cmd/utils/json.go | 85 ++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 80 insertions(+), 20 deletions(-)

diff --git a/cmd/config.go b/cmd/config.go
index 0a134f8..eaae8d3 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"fmt"
 	"github.com/BurntSushi/toml"
+	"github.com/mescanne/goledger/cmd/utils"
 	"io/ioutil"
 	"os"
 	"path"
@@ -66,7 +67,19 @@ func load(name string, app *Config) error {
 	}
 
 	// Persistent configuration
-	if err := ioutil.WriteFile(files[0], []byte(DEFAULT_CONFIG_FILE), 0644); err != nil {
+	err := utils.CreateFileAtomic(files[0], []byte(DEFAULT_CONFIG_FILE), 0644)
+	if os.IsExist(err) {
+		// Somebody else has just created it
+		b, err := ioutil.ReadFile(files[0])
+		if err != nil {
+			return fmt.Errorf("%s: %w", files[0], err)
+		}
+		if _, err := toml.Decode(string(b), app); err != nil {
+			return fmt.Errorf("reading toml file %s: %w", files[0], err)
+		}
+		return nil
+	}
+	if err != nil {
 		return fmt.Errorf("failed writing config file %s: %w\n", files[0], err)
 	}
 
diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index 253e05c..f8bcbc8 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -145,53 +145,100 @@ func SaveToFile(file string, data interface{}) error {
 // a failure or a crash at any point, the file has either its previous contents
 // or all of b. When it returns without an error the new contents are on disk.
 // A new file gets the permissions perm, an existing one keeps its own.
-func WriteFileAtomic(file string, b []byte, perm os.FileMode) (oerr error) {
+func WriteFileAtomic(file string, b []byte, perm os.FileMode) error {
 
 	// Replace the file that a symbolic link points to, not the link
 	if target, err := filepath.EvalSymlinks(file); err == nil {
 		file = target
 	}
 
-	// Write a temporary file next to it
+	// Write a temporary file
+	like, err := os.Stat(file)
+	if err != nil {
+		like = nil
+	}
+	tmp, err := writeTempFile(file, b, perm, like)
+	if err != nil {
+		return err
+	}
+
+	// Move it into place
+	if err := os.Rename(tmp, file); err != nil {
+		os.Remove(tmp)
+		return err
+	}
+	return syncDir(file)
+}
+
+// CreateFileAtomic creates file with the contents b: at any moment, and after a
+// failure or a crash at any point, there is either no file or all of it. If there
+// is a file of the name already it is left as it is, and the error is os.ErrExist.
+func CreateFileAtomic(file string, b []byte, perm os.FileMode) error {
+	tmp, err := writeTempFile(file, b, perm, nil)
+	if err != nil {
+		return err
+	}
+	defer os.Remove(tmp)
+
+	// A link, unlike a rename, never replaces anything
+	if err := os.Link(tmp, file); err != nil {
+		if os.IsExist(err) {
+			return os.ErrExist
+		}
+		if !os.IsPermission(err) {
+			return err
+		}
+
+		// There are no links on this filesystem
+		if _, serr := os.Lstat(file); serr == nil {
+			return os.ErrExist
+		} else if !os.IsNotExist(serr) {
+			return serr
+		}
+		if err := os.Rename(tmp, file); err != nil {
+			return err
+		}
+	}
+	return syncDir(file)
+}
+
+// writeTempFile durably writes b to a new file next to file. The new file gets
+// the permissions perm or (if not nil) those of the file like.
+func writeTempFile(file string, b []byte, perm os.FileMode, like os.FileInfo) (tmp string, oerr error) {
 	var fh *os.File
 	var err error
 	for i := 0; ; i++ {
-		tmp := fmt.Sprintf("%s.%d-%d.tmp", file, os.Getpid(), i)
+		tmp = fmt.Sprintf("%s.%d-%d.tmp", file, os.Getpid(), i)
 		fh, err = os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
 		if err == nil {
 			break
 		}
 		if !os.IsExist(err) || i == 1000 {
-			return err
+			return "", err
 		}
 	}
 	defer func() {
 		if oerr != nil {
 			fh.Close()
-			os.Remove(fh.Name())
+			os.Remove(tmp)
 		}
 	}()
-	if fi, err := os.Stat(file); err == nil {
-		if err := fh.Chmod(fi.Mode().Perm()); err != nil {
-			return err
+	if like != nil {
+		if err := fh.Chmod(like.Mode().Perm()); err != nil {
+			return "", err
 		}
 	}
 	if _, err := fh.Write(b); err != nil {
-		return err
+		return "", err
 	}
 	if err := fh.Sync(); err != nil {
-		return err
-	}
-	if err := fh.Close(); err != nil {
-		return err
-	}
-
-	// Move it into place
-	if err := os.Rename(fh.Name(), file); err != nil {
-		return err
+		return "", err
 	}
+	return tmp, fh.Close()
+}
 
-	// Make the rename durable
+// syncDir makes the name of a file durable
+func syncDir(file string) error {
 	dir, err := os.Open(filepath.Dir(file))
 	if err != nil {
 		return err
-- 
2.43.0


From cd57ea94e67a002d59887beada5bc78410265a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 10/27] fix: an imported transaction is read back with the
 payee it was given

---
 cmd/export/ledger.go  |  2 +-
 cmd/reports/ledger.go |  2 +-
 loader/parser.go      | 34 ++++++++++++++++++++++++++++++++++
 script/starlark.go    |  9 ++++++++-
 4 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index 08153fb..f65ef14 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -27,7 +27,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 		if tnote != "" {
 			tnote = "  ; " + tnote
 		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s %s%s\n", posts.GetDate(), loader.FormatPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index 62b543f..02844c7 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -12,7 +12,7 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 		if tnote != "" {
 			tnote = "  ; " + tnote
 		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s %s%s\n", posts.GetDate(), loader.FormatPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
diff --git a/loader/parser.go b/loader/parser.go
index b475a7a..b75a8ab 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -46,6 +46,40 @@ func (rr *basicReader) parsePayee() string {
 	return strings.TrimSpace(buf.String())
 }
 
+// CleanText replaces the characters that a ledger file cannot hold
+// within a line (line ends, NUL, bytes that are not UTF-8).
+func CleanText(text string) string {
+	return strings.Map(func(c rune) rune {
+		if c == eol || c == 0 {
+			return ' '
+		}
+		return c
+	}, text)
+}
+
+// CleanPayee returns the payee as it is read back from a ledger file.
+func CleanPayee(payee string) string {
+	payee = strings.TrimSpace(CleanText(payee))
+	if strings.HasPrefix(payee, "\"") || payeeNeedsQuotes(payee) {
+		// There is no escape for a quote.
+		payee = strings.ReplaceAll(payee, "\"", "'")
+	}
+	return payee
+}
+
+// FormatPayee returns the payee as it is written in a ledger file.
+func FormatPayee(payee string) string {
+	if payeeNeedsQuotes(payee) {
+		return "\"" + payee + "\""
+	}
+	return payee
+}
+
+// A payee may not appear as a cleared mark or contain the start of a note.
+func payeeNeedsQuotes(payee string) bool {
+	return strings.HasPrefix(payee, "*") || strings.ContainsRune(payee, ';')
+}
+
 func (rr *basicReader) parseNote() string {
 	_ = rr.consumeWS()
 	if rr.ch != ';' {
diff --git a/script/starlark.go b/script/starlark.go
index d62e253..89e496c 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/utils"
+	"github.com/mescanne/goledger/loader"
 	"go.starlark.net/resolve"
 	"go.starlark.net/starlark"
 	"math/big"
@@ -80,8 +81,14 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 		// Set the negative of the amount
 		neg := (&big.Rat{}).Neg(amt)
 
+		// The payee identifies the transaction (with the date), so it has
+		// to be the one that is read back from the ledger.
+		desc = loader.CleanPayee(desc)
+		note = loader.CleanText(note)
+		lnote = loader.CleanText(lnote)
+
 		// Make the transaction
-		bbuilder.NewTransaction(ndate, string(desc), note)
+		bbuilder.NewTransaction(ndate, desc, note)
 		bbuilder.AddPosting(account, ccy, amt, lnote)
 		bbuilder.AddPosting(caccount, ccy, neg, "")
 
-- 
2.43.0


From c17a1de69e71cc80e6e2ed4864f8ab2826530795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 11/27] fix: every line printed by a script is a comment

---
 script/starlark.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/script/starlark.go b/script/starlark.go
index 89e496c..ce05a5d 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -10,10 +10,16 @@ import (
 	"go.starlark.net/starlark"
 	"math/big"
 	"os"
+	"strings"
 )
 
 func Print(thread *starlark.Thread, msg string) {
-	if _, err := fmt.Printf("; %s\n", msg); err != nil {
+	// Every line is a comment.
+	lines := strings.Split(msg, "\n")
+	for i, line := range lines {
+		lines[i] = loader.CleanText(line)
+	}
+	if _, err := fmt.Printf("; %s\n", strings.Join(lines, "\n; ")); err != nil {
 		thread.Cancel(fmt.Sprintf("error writing output: %v", err))
 	}
 }
-- 
2.43.0


From d2d864bf358dc82e668c135907cead09283a9f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 12/27] fix: the authorisation code and state come from one
 request

---
 cmd/download/net.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/cmd/download/net.go b/cmd/download/net.go
index b2149d0..82505a2 100644
--- a/cmd/download/net.go
+++ b/cmd/download/net.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"net/http"
 	"net/url"
+	"sync"
 	"time"
 )
 
@@ -96,6 +97,7 @@ func CaptureCode(port int) (string, string, error) {
 	code := ""
 	state := ""
 	var clientErr error = nil
+	var once sync.Once
 	server := &http.Server{
 		Addr: fmt.Sprintf(":%d", port),
 	}
@@ -103,12 +105,17 @@ func CaptureCode(port int) (string, string, error) {
 		vals := r.URL.Query()
 		codes, codeOk := vals["code"]
 		states, stateOk := vals["state"]
-		if !codeOk || len(codes) != 1 || !stateOk || len(states) != 1 {
-			clientErr = fmt.Errorf("Query must specify state and code")
-		} else {
-			code = codes[0]
-			state = states[0]
-		}
+
+		// Requests are handled concurrently: take the code and the state
+		// of one request only.
+		once.Do(func() {
+			if !codeOk || len(codes) != 1 || !stateOk || len(states) != 1 {
+				clientErr = fmt.Errorf("Query must specify state and code")
+			} else {
+				code = codes[0]
+				state = states[0]
+			}
+		})
 		server.Close()
 	})
 	fmt.Printf("Serving is waiting for response...")
-- 
2.43.0


From b6f9841c903f80c16ab8edf76aedff4a0ae629e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 13/27] fix: web requests do not share options and output

---
 cmd/web/web.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cmd/web/web.go b/cmd/web/web.go
index 312d523..5c45bd0 100644
--- a/cmd/web/web.go
+++ b/cmd/web/web.go
@@ -93,7 +93,13 @@ func (webcfg *WebConfig) handle(app *WebApp, resp http.ResponseWriter, req *http
 }
 
 // Execute command line program
-func (app *WebApp) Execute(args []string, out io.Writer) error {
+func (webapp *WebApp) Execute(args []string, out io.Writer) error {
+
+	// Requests are served concurrently and one after the other, and the
+	// options are set in these structures: use copies.
+	app := webapp.App
+	reportcfg := *webapp.Report
+	registercfg := *webapp.Register
 
 	// Set the output
 	app.Output = out
@@ -104,10 +110,10 @@ func (app *WebApp) Execute(args []string, out io.Writer) error {
 
 	// Add sub-commands
 	// As they are webified
-	accounts.Add(appCmd, &app.App)
-	reports.Add(appCmd, &app.App, app.Report)
-	register.Add(appCmd, &app.App, app.Register)
-	currencies.Add(appCmd, &app.App)
+	accounts.Add(appCmd, &app)
+	reports.Add(appCmd, &app, &reportcfg)
+	register.Add(appCmd, &app, &registercfg)
+	currencies.Add(appCmd, &app)
 
 	// Set the arguments
 	appCmd.SetArgs(args)
-- 
2.43.0


From c1af8402c650d247d3e3c03375de4cdedc2cddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 14/27] fix: a ledger that cannot be read is an error, not the
 end of the program

---
 loader/lexer.go  | 3 +--
 loader/parser.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index c5ad7fb..5d97eb1 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"io"
-	"log"
 	"math/big"
 	"unicode"
 )
@@ -110,7 +109,7 @@ func (rr *basicReader) next() rune {
 	if err == io.EOF {
 		r = eof
 	} else if err != nil {
-		log.Fatal(err)
+		rr.stop("%v", err)
 	} else if r == 0 {
 		rr.stop("unexpected NUL character (damaged file?)")
 	}
diff --git a/loader/parser.go b/loader/parser.go
index b75a8ab..48fadae 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/mescanne/goledger/book"
-	"log"
 	"math/big"
 	"os"
 	"path/filepath"
@@ -238,7 +237,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 
 	file, err := os.Open(filename)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 	defer file.Close()
 
-- 
2.43.0


From 452ec8d220ad2d77e6df2cba7b4ac2074c16affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 15/27] fix: numbers in bank data are stored as the bank
 delivered them

Large integers and long decimals were rounded to a float64 when stored.
---
 cmd/download/monzo.go    |  4 ++--
 cmd/download/net.go      |  2 ++
 cmd/download/nordigen.go |  6 +++---
 cmd/download/starling.go |  8 ++++----
 cmd/utils/json.go        | 15 ++++++++++++++-
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index e23533b..a06cce4 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -236,7 +236,7 @@ type MonzoAccount struct {
 }
 
 func (acc *MonzoAccount) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &acc.Data); err != nil {
+	if err := utils.UnmarshalJSON(b, &acc.Data); err != nil {
 		return err
 	}
 	var err error
@@ -257,7 +257,7 @@ type Transaction struct {
 }
 
 func (t *Transaction) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &t.Data); err != nil {
+	if err := utils.UnmarshalJSON(b, &t.Data); err != nil {
 		return err
 	}
 	var err error
diff --git a/cmd/download/net.go b/cmd/download/net.go
index 82505a2..f1da989 100644
--- a/cmd/download/net.go
+++ b/cmd/download/net.go
@@ -55,6 +55,7 @@ func postToURL(client *http.Client, url string, pdata url.Values, data interface
 
 	decoder := json.NewDecoder(bytes.NewReader(bodyBytes))
 	decoder.DisallowUnknownFields()
+	decoder.UseNumber()
 	if err = decoder.Decode(data); err != nil {
 		return fmt.Errorf("decoding '%v' from url %v: %w", string(bodyBytes), url, err)
 	}
@@ -86,6 +87,7 @@ func fetchFromURL(client *http.Client, url string, data interface{}) error {
 
 	decoder := json.NewDecoder(bytes.NewReader(bodyBytes))
 	decoder.DisallowUnknownFields()
+	decoder.UseNumber()
 	if err = decoder.Decode(data); err != nil {
 		return fmt.Errorf("decoding '%v' from url %v: %w", string(bodyBytes), url, err)
 	}
diff --git a/cmd/download/nordigen.go b/cmd/download/nordigen.go
index 3b07946..b75e680 100644
--- a/cmd/download/nordigen.go
+++ b/cmd/download/nordigen.go
@@ -229,7 +229,7 @@ type Institution struct {
 }
 
 func (i *Institution) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &i.Data); err != nil {
+	if err := utils.UnmarshalJSON(b, &i.Data); err != nil {
 		return err
 	}
 	var err error
@@ -254,7 +254,7 @@ type Requisition struct {
 }
 
 func (r *Requisition) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &r.Data); err != nil {
+	if err := utils.UnmarshalJSON(b, &r.Data); err != nil {
 		return err
 	}
 	var err error
@@ -285,7 +285,7 @@ type NordigenTransaction struct {
 }
 
 func (t *NordigenTransaction) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &t.Data); err != nil {
+	if err := utils.UnmarshalJSON(b, &t.Data); err != nil {
 		return err
 	}
 	var err error
diff --git a/cmd/download/starling.go b/cmd/download/starling.go
index 6b3ee1c..d5094bf 100644
--- a/cmd/download/starling.go
+++ b/cmd/download/starling.go
@@ -240,7 +240,7 @@ type StarlingAccount struct {
 }
 
 func (acc *StarlingAccount) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &acc.Data); err != nil {
+	if err := utils.UnmarshalJSON(b, &acc.Data); err != nil {
 		return err
 	}
 	var err error
@@ -272,7 +272,7 @@ type SavingsGoal struct {
 }
 
 func (t *SavingsGoal) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &t.Data); err != nil {
+	if err := utils.UnmarshalJSON(b, &t.Data); err != nil {
 		return err
 	}
 	var err error
@@ -296,7 +296,7 @@ type SpendingSpace struct {
 }
 
 func (t *SpendingSpace) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &t.Data); err != nil {
+	if err := utils.UnmarshalJSON(b, &t.Data); err != nil {
 		return err
 	}
 	var err error
@@ -321,7 +321,7 @@ type FeedItem struct {
 }
 
 func (t *FeedItem) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &t.Data); err != nil {
+	if err := utils.UnmarshalJSON(b, &t.Data); err != nil {
 		return err
 	}
 	var err error
diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index f8bcbc8..bb65e32 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -65,6 +65,19 @@ func ListToStringList(lst []interface{}) ([]string, error) {
 	return s, nil
 }
 
+// UnmarshalJSON is json.Unmarshal, but numbers are kept exactly as they are
+func UnmarshalJSON(b []byte, data interface{}) error {
+	decoder := json.NewDecoder(bytes.NewReader(b))
+	decoder.UseNumber()
+	if err := decoder.Decode(data); err != nil {
+		return err
+	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return fmt.Errorf("invalid data after top-level value")
+	}
+	return nil
+}
+
 func LoadFromFile(file string, data interface{}) error {
 
 	// Ensure directory exists
@@ -98,7 +111,7 @@ func LoadFromFile(file string, data interface{}) error {
 	}
 
 	// Unmarshal JSON bytes
-	err = json.Unmarshal(b, data)
+	err = UnmarshalJSON(b, data)
 	if err != nil {
 		return fmt.Errorf("failed unmarshalling json from %s: %v", file, err)
 	}
-- 
2.43.0


From b239399bd7fcd682f33a69c1a1ccc98e54d95914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 16/27] fix: an import reads its code once, also if it is saved
 meanwhile

---
 cmd/importer/import.go   | 9 ++++++++-
 cmd/importer/starlark.go | 2 +-
 script/starlark.go       | 6 +++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/cmd/importer/import.go b/cmd/importer/import.go
index 5b321fc..b9d9354 100644
--- a/cmd/importer/import.go
+++ b/cmd/importer/import.go
@@ -46,6 +46,13 @@ func (imp *ImportDef) run(app *app.App, rcmd *cobra.Command, args []string) erro
 		return fmt.Errorf("invalid import configuration for '%v': %w", &imp.CLIConfig, err)
 	}
 
+	// Read the code once: it is the same for all files, also if it is
+	// saved meanwhile
+	code, err := utils.GetFileOrStr(imp.Code)
+	if err != nil {
+		return fmt.Errorf("error processing data: %w", err)
+	}
+
 	// Load main book
 	main, err := app.LoadBook()
 	if err != nil {
@@ -75,7 +82,7 @@ func (imp *ImportDef) run(app *app.App, rcmd *cobra.Command, args []string) erro
 		}
 
 		// Convert the records
-		b, err := imp.processData(imports, arg, imp.Code)
+		b, err := imp.processData(imports, arg, code)
 		if err != nil {
 			return fmt.Errorf("error processing data: %w", err)
 		}
diff --git a/cmd/importer/starlark.go b/cmd/importer/starlark.go
index ba555d7..d1fd5aa 100644
--- a/cmd/importer/starlark.go
+++ b/cmd/importer/starlark.go
@@ -20,7 +20,7 @@ func (imp *ImportDef) processData(idata starlark.Value, file string, sc string)
 		"error": script.Errorf,
 	}
 
-	err := script.RunStarlark(script.Print, predeclared, sc)
+	err := script.RunStarlarkSource(script.Print, predeclared, sc)
 	if err != nil {
 		return nil, err
 	}
diff --git a/script/starlark.go b/script/starlark.go
index ce05a5d..07e2d47 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -132,7 +132,11 @@ func RunStarlark(printf func(*starlark.Thread, string), globals map[string]starl
 	if err != nil {
 		return err
 	}
+	return RunStarlarkSource(printf, globals, sc)
+}
 
+// RunStarlarkSource runs code that has been read already
+func RunStarlarkSource(printf func(*starlark.Thread, string), globals map[string]starlark.Value, sc string) error {
 	// Make more flexible (esp floats)
 	resolve.AllowFloat = true
 	resolve.AllowGlobalReassign = true
@@ -148,7 +152,7 @@ func RunStarlark(printf func(*starlark.Thread, string), globals map[string]starl
 	predeclared := starlark.StringDict(globals)
 
 	// Execute a program.
-	_, err = starlark.ExecFile(thread, "code", sc, predeclared)
+	_, err := starlark.ExecFile(thread, "code", sc, predeclared)
 	if err != nil {
 		if errors.Is(err, userError) {
 			return err
-- 
2.43.0


From 29460ea613fb45716910629947653741fd531667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:05 +0000
Subject: [PATCH 17/27] fix: a download follows a symbolic link to a state file
 that does not exist yet

---
 cmd/utils/json.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index bb65e32..2bb843b 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -160,8 +160,26 @@ func SaveToFile(file string, data interface{}) error {
 // A new file gets the permissions perm, an existing one keeps its own.
 func WriteFileAtomic(file string, b []byte, perm os.FileMode) error {
 
-	// Replace the file that a symbolic link points to, not the link
-	if target, err := filepath.EvalSymlinks(file); err == nil {
+	// Replace the file that a symbolic link points to, not the link (the
+	// file need not exist)
+	for i := 0; i < 40; i++ {
+		info, err := os.Lstat(file)
+		if os.IsNotExist(err) {
+			break
+		}
+		if err != nil {
+			return err
+		}
+		if info.Mode()&os.ModeSymlink == 0 {
+			break
+		}
+		target, err := os.Readlink(file)
+		if err != nil {
+			return err
+		}
+		if !filepath.IsAbs(target) {
+			target = filepath.Dir(file) + string(filepath.Separator) + target
+		}
 		file = target
 	}
 
-- 
2.43.0


From 190714b164f795fe6baed78b44925386d257bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 18/27] fix: the permissions of the state file are kept also if
 they cannot be read at first

---
 cmd/utils/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index 2bb843b..dbbff90 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -185,8 +185,10 @@ func WriteFileAtomic(file string, b []byte, perm os.FileMode) error {
 
 	// Write a temporary file
 	like, err := os.Stat(file)
-	if err != nil {
+	if os.IsNotExist(err) {
 		like = nil
+	} else if err != nil {
+		return err
 	}
 	tmp, err := writeTempFile(file, b, perm, like)
 	if err != nil {
-- 
2.43.0


From fbb688d77adc0ca2053413dc37a52ef03ebc9f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:19 +0000
Subject: [PATCH 19/27] fix: no temporary file is left behind when a file
 cannot be written

---
 cmd/utils/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index dbbff90..53ee18a 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -250,10 +250,11 @@ func writeTempFile(file string, b []byte, perm os.FileMode, like os.FileInfo) (t
 			return "", err
 		}
 	}
+	name := tmp
 	defer func() {
 		if oerr != nil {
 			fh.Close()
-			os.Remove(tmp)
+			os.Remove(name)
 		}
 	}()
 	if like != nil {
-- 
2.43.0


From 66a2b07da0ffa59bcb298298a86cd5254cbcf5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 20/27] fix: errors and help print currencies and parameters in
 the same order on every run

---
 book/builder.go         | 10 +++++++++-
 cmd/utils/cli_config.go |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/book/builder.go b/book/builder.go
index 910dd34..4c5d337 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -69,13 +69,21 @@ func NewBookBuilder() *Builder {
 
 func (b *Builder) checkAndClearTransaction() {
 	var Zero big.Int
+
+	// Report the first currency that doesn't balance
+	unbalanced, balances := "", true
 	for ccy, amt := range b.currAmts {
 		if amt.Num().Cmp(&Zero) != 0 {
-			panic(fmt.Sprintf("In transaction (%d %s) ccy %s has balance of %s!", b.currDate, b.currPayee, ccy, amt))
+			if balances || ccy < unbalanced {
+				unbalanced, balances = ccy, false
+			}
 		} else {
 			b.currAmts[ccy].SetInt64(0)
 		}
 	}
+	if !balances {
+		panic(fmt.Sprintf("In transaction (%d %s) ccy %s has balance of %s!", b.currDate, b.currPayee, unbalanced, b.currAmts[unbalanced]))
+	}
 }
 
 func (b *Builder) NewTransaction(date Date, payee string, note string) {
diff --git a/cmd/utils/cli_config.go b/cmd/utils/cli_config.go
index e134969..d3c9237 100644
--- a/cmd/utils/cli_config.go
+++ b/cmd/utils/cli_config.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -92,6 +93,7 @@ func (e *CLIConfig) String() string {
 		keyv[i] = k + "=" + v
 		i++
 	}
+	sort.Strings(keyv)
 
 	return e.ConfigType + ":" + strings.Join(keyv, ",")
 }
-- 
2.43.0


From 5cae63b43c4ebfe5d0b631e79173e6de1dcfac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 21/27] fix: help and usage texts do not show the configured
 secrets

---
 cmd/download/download.go | 5 +++++
 cmd/download/monzo.go    | 1 +
 cmd/download/nordigen.go | 1 +
 cmd/download/starling.go | 1 +
 4 files changed, 8 insertions(+)

diff --git a/cmd/download/download.go b/cmd/download/download.go
index 1547e72..1105f64 100644
--- a/cmd/download/download.go
+++ b/cmd/download/download.go
@@ -23,3 +23,8 @@ func Add(root *cobra.Command, download *Download) {
 	download.Nordigen.Add(ncmd)
 	root.AddCommand(ncmd)
 }
+
+// hideDefault leaves a configured secret out of the help and usage texts
+func hideDefault(cmd *cobra.Command, flag string) {
+	cmd.Flags().Lookup(flag).DefValue = ""
+}
diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index a06cce4..f121ec6 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -35,6 +35,7 @@ func (m *MonzoDownload) Add(root *cobra.Command) {
 	}
 	ncmd.Flags().StringVar(&m.ClientID, "clientid", m.ClientID, "Client ID for application")
 	ncmd.Flags().StringVar(&m.ClientSecret, "clientsecret", m.ClientSecret, "Client Secret for application")
+	hideDefault(ncmd, "clientsecret")
 	ncmd.Flags().IntVarP(&m.Port, "port", "p", m.Port, "Port for OAuth2 loop-back on localhost (must match app config)")
 	ncmd.Args = cobra.ExactArgs(1)
 	ncmd.RunE = func(rcmd *cobra.Command, args []string) error {
diff --git a/cmd/download/nordigen.go b/cmd/download/nordigen.go
index b75e680..32143ac 100644
--- a/cmd/download/nordigen.go
+++ b/cmd/download/nordigen.go
@@ -30,6 +30,7 @@ func (m *NordigenDownload) Add(root *cobra.Command) {
 	}
 	ncmd.Flags().StringVar(&m.ClientID, "Client ID", m.ClientID, "Client Secret for Nordigen")
 	ncmd.Flags().StringVar(&m.ClientSecret, "Client Secret", m.ClientSecret, "Client ID for Nordigen")
+	hideDefault(ncmd, "Client Secret")
 	ncmd.Args = cobra.ExactArgs(1)
 	ncmd.RunE = func(rcmd *cobra.Command, args []string) error {
 		client, err := m.NewNordigenClient(args[0])
diff --git a/cmd/download/starling.go b/cmd/download/starling.go
index d5094bf..685db74 100644
--- a/cmd/download/starling.go
+++ b/cmd/download/starling.go
@@ -28,6 +28,7 @@ func (m *StarlingDownload) Add(root *cobra.Command) {
 		DisableAutoGenTag: true,
 	}
 	ncmd.Flags().StringVar(&m.PersonalAccessToken, "personalAccessToken", m.PersonalAccessToken, "Personal Access Token for Starling")
+	hideDefault(ncmd, "personalAccessToken")
 	downloadAllMsg := fmt.Sprintf("Download all data (default is %d days prior to most recent transaction)", STARLING_DAYS_AGO)
 	ncmd.Flags().BoolVar(&m.AllData, "alldata", m.AllData, downloadAllMsg)
 	ncmd.Args = cobra.ExactArgs(1)
-- 
2.43.0


From 5b4e5fc7eb4aec2a57be442f318ee56b86aa379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 22/27] fix: tokens that cannot be decoded are not printed

---
 cmd/download/net.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/download/net.go b/cmd/download/net.go
index f1da989..620afe1 100644
--- a/cmd/download/net.go
+++ b/cmd/download/net.go
@@ -57,7 +57,8 @@ func postToURL(client *http.Client, url string, pdata url.Values, data interface
 	decoder.DisallowUnknownFields()
 	decoder.UseNumber()
 	if err = decoder.Decode(data); err != nil {
-		return fmt.Errorf("decoding '%v' from url %v: %w", string(bodyBytes), url, err)
+		// The response may have tokens, which are not for display
+		return fmt.Errorf("decoding response from url %v: %w", url, err)
 	}
 
 	return nil
-- 
2.43.0


From 99dc28535bb2ef2f801c07b657c3b67ce746276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 23/27] fix: credentials are not sent to another host that a
 bank redirects to

---
 cmd/download/monzo.go    |  6 ++++--
 cmd/download/net.go      | 12 ++++++++++++
 cmd/download/nordigen.go |  4 ++--
 cmd/download/starling.go |  4 +++-
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index f121ec6..0221454 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -128,7 +128,7 @@ func (m *MonzoDownload) NewMonzoClient(file string) (*MonzoClient, error) {
 	}
 	oauth2.RegisterBrokenAuthHeaderProvider(conf.Endpoint.TokenURL)
 
-	ctx := context.Background()
+	ctx := context.WithValue(context.Background(), oauth2.HTTPClient, &http.Client{CheckRedirect: sameHost})
 	if config.Token == nil {
 		fmt.Printf("Getting a brand new authorization token..\n")
 
@@ -189,8 +189,10 @@ func (m *MonzoDownload) NewMonzoClient(file string) (*MonzoClient, error) {
 		file:  file,
 		token: config.Token,
 	}
+	client := oauth2.NewClient(ctx, src)
+	client.CheckRedirect = sameHost
 	return &MonzoClient{
-		client: oauth2.NewClient(ctx, src),
+		client: client,
 		file:   file,
 		data:   &config,
 		config: m,
diff --git a/cmd/download/net.go b/cmd/download/net.go
index 620afe1..2e6337a 100644
--- a/cmd/download/net.go
+++ b/cmd/download/net.go
@@ -30,6 +30,18 @@ func getThrottler(min_delay time.Duration) func() {
 	}
 }
 
+// sameHost follows a redirection only to the same host over the same protocol:
+// the credentials are for nobody else.
+func sameHost(req *http.Request, via []*http.Request) error {
+	if req.URL.Scheme != via[0].URL.Scheme || req.URL.Host != via[0].URL.Host {
+		return fmt.Errorf("redirected to %s://%s", req.URL.Scheme, req.URL.Host)
+	}
+	if len(via) >= 10 {
+		return fmt.Errorf("stopped after 10 redirects")
+	}
+	return nil
+}
+
 func postToURL(client *http.Client, url string, pdata url.Values, data interface{}) error {
 	throttler()
 
diff --git a/cmd/download/nordigen.go b/cmd/download/nordigen.go
index 32143ac..064fb94 100644
--- a/cmd/download/nordigen.go
+++ b/cmd/download/nordigen.go
@@ -90,7 +90,7 @@ func (c *NordigenClient) Token() (*oauth2.Token, error) {
 		RefreshExpires int    `json:"refresh_expires,omitempty"`
 	}
 
-	var hc http.Client
+	hc := http.Client{CheckRedirect: sameHost}
 
 	// TODO: AccessExpires is prior to RefreshExpires.. do Refresh first..
 	if c.data.Token == nil || time.Now().After(c.data.Token.AccessExpires) {
@@ -138,7 +138,7 @@ func (m *NordigenDownload) NewNordigenClient(file string) (*NordigenClient, erro
 
 	// New client
 	nclient := &NordigenClient{
-		client: &http.Client{},
+		client: &http.Client{CheckRedirect: sameHost},
 		file:   file,
 		data:   &ndata,
 		config: m,
diff --git a/cmd/download/starling.go b/cmd/download/starling.go
index 685db74..f7b5adf 100644
--- a/cmd/download/starling.go
+++ b/cmd/download/starling.go
@@ -79,8 +79,10 @@ func (m *StarlingDownload) NewStarlingClient(file string) (*StarlingClient, erro
 	}
 
 	// New client
+	client := oauth2.NewClient(context.Background(), m)
+	client.CheckRedirect = sameHost
 	return &StarlingClient{
-		client: oauth2.NewClient(context.Background(), m),
+		client: client,
 		file:   file,
 		data:   &config,
 		config: m,
-- 
2.43.0


From 76cfc9290c612b9d90e1af4365f437f6844cd1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 24/27] fix: a new state file can be read by its owner only

---
 cmd/utils/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index 53ee18a..3139d8f 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -147,7 +147,7 @@ func SaveToFile(file string, data interface{}) error {
 	}
 
 	// Write the file
-	if err := WriteFileAtomic(file, b, 0755); err != nil {
+	if err := WriteFileAtomic(file, b, 0600); err != nil {
 		return fmt.Errorf("failed writing to %s: %w", file, err)
 	}
 
-- 
2.43.0


From cd2d904c28a6d715650fbe671dce8cb91d3f6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 25/27] fix: wait for the pager also when the command fails

---
 cmd/app/app.go | 18 ++++++++----------
 cmd/root.go    |  7 +++++++
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/cmd/app/app.go b/cmd/app/app.go
index b6b45c0..5ff958b 100644
--- a/cmd/app/app.go
+++ b/cmd/app/app.go
@@ -126,6 +126,14 @@ func initialiseLess(w io.Writer) io.Writer {
 	return pagerWriter{stdin}
 }
 
+// ClosePager ends the output to the pager (if any) and waits for it
+func (app *App) ClosePager() error {
+	if appCleanup == nil {
+		return nil
+	}
+	return appCleanup()
+}
+
 // pagerWriter ignores write errors: it is fine to leave the pager early
 type pagerWriter struct {
 	w io.Writer
@@ -155,16 +163,6 @@ func (app *App) LoadCommand() *cobra.Command {
 		PersistentPreRun: func(cmd *cobra.Command, args []string) {
 			cmd.SilenceErrors = true
 		},
-
-		// Cleanup if needed
-		PersistentPostRun: func(cmd *cobra.Command, args []string) {
-			if appCleanup == nil {
-				return
-			}
-			if err := appCleanup(); err != nil {
-				fmt.Printf("error: %v\n", err)
-			}
-		},
 	}
 
 	appCmd.PersistentFlags().StringVarP(&app.Ledger, "ledger", "l", app.Ledger, "ledger to read")
diff --git a/cmd/root.go b/cmd/root.go
index e18cd01..42517d0 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -69,6 +69,13 @@ func Execute() error {
 	//	Register: &app.Register,
 	//})
 
+	// Cleanup, whether the command succeeds or not
+	cobra.OnFinalize(func() {
+		if err := app.ClosePager(); err != nil {
+			fmt.Printf("error: %v\n", err)
+		}
+	})
+
 	// Run core app
 	if err := appCmd.Execute(); err != nil {
 		return err
-- 
2.43.0


From 95b020c6d57e09af56dd01b1acf1214da1c86f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:56 +0000
Subject: [PATCH 26/27] fix: a report whose pager failed is not a success

---
 cmd/root.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 42517d0..5000a79 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -70,9 +70,10 @@ func Execute() error {
 	//})
 
 	// Cleanup, whether the command succeeds or not
+	var pagerErr error
 	cobra.OnFinalize(func() {
 		if err := app.ClosePager(); err != nil {
-			fmt.Printf("error: %v\n", err)
+			pagerErr = fmt.Errorf("pager: %w", err)
 		}
 	})
 
@@ -81,5 +82,5 @@ func Execute() error {
 		return err
 	}
 
-	return nil
+	return pagerErr
 }
-- 
2.43.0


From c4cc36239af3561deba0ce7f97c91619a668d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:35 +0000
Subject: [PATCH 27/27] fix: complete the macros of report in a fixed order

---
 cmd/reports/report.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/reports/report.go b/cmd/reports/report.go
index bde4d19..3c37627 100644
--- a/cmd/reports/report.go
+++ b/cmd/reports/report.go
@@ -8,6 +8,7 @@ import (
 	"github.com/spf13/cobra"
 	"math/big"
 	"regexp"
+	"sort"
 )
 
 type TransactionReport struct {
@@ -86,6 +87,7 @@ func Add(cmd *cobra.Command, app *app.App, report *TransactionReport) {
 	for k, _ := range app.Macros {
 		macroNames = append(macroNames, k)
 	}
+	sort.Strings(macroNames)
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
 		return report.run(app, cmd, args)
-- 
2.43.0

