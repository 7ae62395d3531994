From a57126d599ac26ef1efdc485274a8bbe4077df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 01/33] fix: MustFindAccount accepted ambiguous patterns

Only the second match was compared with the first, and by plain prefix,
so unrelated accounts (or a sibling such as Banking next to Bank) were
silently taken for sub-accounts of the first match.
---
 coin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index fba2d21..727c225 100644
--- a/coin.go
+++ b/coin.go
@@ -293,10 +293,10 @@ func MustFindAccount(pattern string) *Account {
 	if len(as) == 1 {
 		return as[0]
 	}
-	parent := as[0].FullName
+	parent := as[0].FullName + ":"
 	all := true
 	for _, a := range as[1:] {
-		if all = all && strings.HasPrefix(a.FullName, parent); all {
+		if all = all && strings.HasPrefix(a.FullName, parent); !all {
 			break
 		}
 	}
-- 
2.43.0


From c889e95c991f661432398676bd31103f19c986ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 02/33] fix: two digit years are relative to the current
 century

The expansion used the current millennium, so e.g. with the current year
1999 the date 98/01/01 resolved to 1198.
---
 date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.go b/date.go
index 98af69f..9a3739f 100644
--- a/date.go
+++ b/date.go
@@ -83,7 +83,7 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 		if yy := match["ymdy"]; yy != "" {
 			yyy, _ := strconv.Atoi(yy)
 			if yyy < 100 {
-				yyy = y/1000*1000 + yyy
+				yyy = y/100*100 + yyy
 				if yyy < y && y-yyy > 50 {
 					yyy += 100
 				} else if yyy > y && yyy-y > 50 {
-- 
2.43.0


From a8952dd8f7962455f9b4f81fd9c971c4fa6dc13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 03/33] fix: FindEqual returned its argument instead of the
 match

---
 transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index c9d187b..27f5ab9 100644
--- a/transaction.go
+++ b/transaction.go
@@ -53,7 +53,7 @@ func (transactions TransactionsByTime) Less(i, j int) bool {
 func (transactions TransactionsByTime) FindEqual(t *Transaction) *Transaction {
 	for _, t2 := range transactions {
 		if t2.IsEqual(t) {
-			return t
+			return t2
 		}
 	}
 	return nil
-- 
2.43.0


From af24564475c9784d1ddbbb3c052240a164aa4076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 04/33] fix: note lines in transactions without postings and
 empty notes

Notes of a transaction without any posting crashed the parser and a note
line without text was read as a posting to an account with no name.
---
 transaction.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/transaction.go b/transaction.go
index 27f5ab9..4a8aa33 100644
--- a/transaction.go
+++ b/transaction.go
@@ -145,8 +145,10 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		if match == nil {
 			break
 		}
-		if note := match["note"]; len(note) > 0 {
-			notes = append(notes, string(note))
+		if len(match["account"]) == 0 {
+			if note := match["note"]; len(note) > 0 {
+				notes = append(notes, string(note))
+			}
 			continue
 		}
 		var quantity *Amount
@@ -185,7 +187,11 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		t.Postings = append(t.Postings, s)
 	}
 	if len(notes) > 0 {
-		s.Notes = append(s.Notes, notes...)
+		if s == nil {
+			t.Notes = append(t.Notes, notes...)
+		} else {
+			s.Notes = append(s.Notes, notes...)
+		}
 	}
 	t.Tags = ParseTags(t.Notes...)
 	for _, p := range t.Postings {
-- 
2.43.0


From a002aa75e83fd0e76b5e72ab9343d1950197e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 05/33] fix: a transaction header directly after a transaction
 is not a posting

The posting pattern was not anchored, so the first word of the next
header (or any other unindented line) was read as an account name.
---
 transaction.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transaction.go b/transaction.go
index 4a8aa33..dba4900 100644
--- a/transaction.go
+++ b/transaction.go
@@ -119,8 +119,8 @@ func (t *Transaction) Write(w io.Writer, ledger bool) error {
 
 var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>\S[^;]*))?(; ?(?P<shortNote>.*))?`, DateREX)
 var postingREX = rex.MustCompile(``+
-	`\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
-	`\s+; ?(?P<note>.*)`,
+	`^\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
+	`^\s+; ?(?P<note>.*)`,
 	AccountREX, AmountREX, AmountREX)
 
 func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
-- 
2.43.0


From c27d0712c758e39beaa52df034a4b446aea11f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 06/33] fix: excess decimals of negative amounts are truncated
 toward zero

Euclidean division rounded negative amounts away from zero, so -1.005
read as -1.01 while 1.005 read as 1.00.
---
 amount.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amount.go b/amount.go
index d07feb6..d9f422e 100644
--- a/amount.go
+++ b/amount.go
@@ -23,7 +23,7 @@ func NewAmountFrac(num, den *big.Int, c *Commodity) *Amount {
 	if c.Decimals > 0 {
 		b.Mul(b, bigPow10(c.Decimals))
 	}
-	b.Div(b, den)
+	b.Quo(b, den)
 	return NewAmount(b, c)
 }
 
@@ -97,7 +97,7 @@ func parseAmount(s string, c *Commodity) (*Amount, error) {
 	decimals := len(ss[1])
 	if c.Decimals != decimals {
 		bi.Mul(bi, bigPow10(c.Decimals))
-		bi.Div(bi, bigPow10(decimals))
+		bi.Quo(bi, bigPow10(decimals))
 	}
 	return NewAmount(bi, c), nil
 }
-- 
2.43.0


From 54dd1b786617f05bdc354ceee06674e57bead25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 07/33] fix: conversion yields an amount of the target
 commodity

The result was expressed in the source commodity with its precision, so
3 shares at 12.34 CAD converted to 37 CAD when shares have no decimals.
---
 commodity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commodity.go b/commodity.go
index 4bfa017..7f8f0d6 100644
--- a/commodity.go
+++ b/commodity.go
@@ -203,7 +203,7 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 	prices := c2.Prices[c]
 	if prices != nil {
 		p := prices[0]
-		val := amount.Times(p.Value)
+		val := p.Value.Times(amount)
 		return val, nil
 	}
 	// Otherwise try to follow each c2 price currency
@@ -213,7 +213,7 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 			continue
 		}
 		p := prices[0]
-		val2 := amount.Times(p.Value)
+		val2 := p.Value.Times(amount)
 		val3, err := c.convert(val2, c3, append(previous, c2))
 		if err == nil {
 			return val3, nil
-- 
2.43.0


From 661a9a2da6ecee7a436c8d8ba312de459097022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 08/33] fix: indirect conversions do not depend on map
 iteration order

With several conversion paths the path taken, and so the amount, changed
from run to run.
---
 commodity.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/commodity.go b/commodity.go
index 7f8f0d6..b6de17f 100644
--- a/commodity.go
+++ b/commodity.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"math/big"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode"
@@ -48,6 +49,9 @@ func (c *Commodity) Currencies() (currencies []*Commodity) {
 	for cur := range c.Prices {
 		currencies = append(currencies, cur)
 	}
+	sort.Slice(currencies, func(i, j int) bool {
+		return currencies[i].Id < currencies[j].Id
+	})
 	return currencies
 }
 
@@ -207,12 +211,12 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 		return val, nil
 	}
 	// Otherwise try to follow each c2 price currency
-	for c3, prices := range c2.Prices {
+	for _, c3 := range c2.Currencies() {
 		// Check if we tried this currency before to avoid cycles
 		if c3.includedIn(previous) {
 			continue
 		}
-		p := prices[0]
+		p := c2.Prices[c3][0]
 		val2 := p.Value.Times(amount)
 		val3, err := c.convert(val2, c3, append(previous, c2))
 		if err == nil {
-- 
2.43.0


From 5dbad7d349c01c0cfd9843deb885cc08439a880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 09/33] fix: top n dropped the last account when exactly one
 was left over

---
 cmd/coin/totals.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 5df5868..7315b63 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -433,7 +433,7 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 	rest := accounts[n:]
 	accounts = accounts[:n]
-	if len(rest) > 1 {
+	if len(rest) > 0 {
 		others := ats[rest[0]]
 		for _, acc := range rest[1:] {
 			others.merge(ats[acc])
-- 
2.43.0


From 1e411f3388b44c55b974926f4b199f44af8411c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 10/33] fix: merging totals silently dropped amounts that
 cannot be converted

---
 cmd/coin/totals.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 7315b63..4531834 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -33,14 +33,14 @@ func (t *timeTotal) Categories() (keys []string) {
 func (t *timeTotal) AddIn(t2 *timeTotal, keysOnly bool) {
 	check.If(t.Time.Equal(t2.Time), "%v is not equal to %v", t.Time, t2.Time)
 	if t.total != nil && !keysOnly {
-		t.total.AddIn(t2.total)
+		check.NoError(t.total.AddIn(t2.total), "cannot add %a to totals", t2.total)
 		return
 	}
 	for k, v := range t2.totals {
 		amt := t.totals[k]
 		if amt != nil {
 			if !keysOnly {
-				amt.AddIn(v)
+				check.NoError(amt.AddIn(v), "cannot add %a to totals", v)
 			}
 		} else {
 			if keysOnly {
-- 
2.43.0


From 405f4ede1061f3802c8b3d5bb78775c08d578a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 11/33] fix: aggregated register crashed when acc is among
 Other or nothing is left

The timeline to align the columns with was looked up after reducing the
totals to the top n, when the account itself may be part of Other.
---
 cmd/coin/register.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 7823fc7..f27fa9d 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -127,8 +127,12 @@ func (cmd *cmdRegister) aggregatedRegister(f io.Writer, acc *coin.Account) {
 	})
 	totals.sanitize()
 	var accounts []*coin.Account
+	timeline := totals[acc] // covers times and categories of all sub-accounts
 	totals, accounts = totals.top(cmd.top)
-	totals.mergeTime(totals[acc])
+	if len(accounts) == 0 {
+		return
+	}
+	totals.mergeTime(timeline)
 
 	if cmd.cumulative {
 		totals.makeCumulative()
-- 
2.43.0


From 25a402b9abeae3875496e249cbf068e49303ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 12/33] fix: totals of postings without payee were not printed

The empty category was mistaken for totals without categories, printing
<nil> (text) or crashing (csv, json).
---
 cmd/coin/totals.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 4531834..80deaed 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -563,7 +563,7 @@ func (ats accountTotals) print(f io.Writer,
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if t.totals != nil {
 					amt = t.totals[category]
 				}
 				args = append(args, widths[ii], amt)
@@ -623,7 +623,7 @@ func (ats accountTotals) rows(
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if t.totals != nil {
 					amt = t.totals[category]
 				}
 				row = append(row, amt.String())
-- 
2.43.0


From b37c7afaa8b3b9e37915b73866ffad74e196d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 13/33] fix: inverted payee filter applied to the first account
 only

Trimming the postings stripped the ! off the flag, so with -r or any
aggregation the filter was not inverted for the other accounts.
---
 cmd/coin/register.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index f27fa9d..9739b3d 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -183,13 +183,9 @@ func (cmd *cmdRegister) period() *timeReducer {
 func (cmd *cmdRegister) trim(ps []*coin.Posting) postings {
 	ps = trim(ps, cmd.begin, cmd.end)
 	if len(cmd.payee) > 0 {
-		inverted := false
-		if cmd.payee[0] == '!' {
-			inverted = true
-			cmd.payee = cmd.payee[1:]
-		}
+		payee, inverted := strings.CutPrefix(cmd.payee, "!")
 		var pps []*coin.Posting
-		r := regexp.MustCompile("(?i)" + cmd.payee)
+		r := regexp.MustCompile("(?i)" + payee)
 		for _, p := range ps {
 			if match := r.MatchString(p.Transaction.Description); match && !inverted || !match && inverted {
 				pps = append(pps, p)
-- 
2.43.0


From 134dfd07b4b1d2b05f5f24db2a1131dbfe94d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 14/33] fix: modify changed only the first matching posting of
 a transaction

The short circuited || skipped the remaining postings; transactions with
just a transaction tag added were not counted as modified.
---
 cmd/coin/modify.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 9b726c7..e59c59d 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -119,10 +119,9 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	for _, p := range t.Postings {
 		if p.Account == cmd.from {
 			hasPostingsMatchingAccount = true
-			modified = modified || cmd.modifyPosting(p)
-		}
-		if cmd.ptag != nil && cmd.ptag.Match(p.Tags) {
-			modified = modified || cmd.modifyPosting(p)
+			modified = cmd.modifyPosting(p) || modified
+		} else if cmd.ptag != nil && cmd.ptag.Match(p.Tags) {
+			modified = cmd.modifyPosting(p) || modified
 		}
 	}
 
@@ -131,6 +130,7 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	}
 	if len(cmd.setTTag) > 0 {
 		t.Notes = addTagLine(t.Notes, cmd.setTTag)
+		modified = true
 	}
 	return modified
 }
-- 
2.43.0


From 25e0dd17d9a67b5333d62baf83a23378923b7133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 15/33] fix: last line without a newline was dropped from the
 OFX input

---
 cmd/ofx2coin/bmo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ofx2coin/bmo.go b/cmd/ofx2coin/bmo.go
index ac33eb6..a97d0d0 100644
--- a/cmd/ofx2coin/bmo.go
+++ b/cmd/ofx2coin/bmo.go
@@ -39,7 +39,7 @@ func (r *bmoReader) Read(p []byte) (n int, err error) {
 	loop:
 		for {
 			r.lastLine, err = r.ReadBytes('\n')
-			if err != nil {
+			if len(r.lastLine) == 0 {
 				return 0, err
 			}
 			if !r.reachedHeader {
-- 
2.43.0


From d02b34135854dd0954b05c1e55042209d905967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 16/33] fix: writing rules crashed on drop rules and lost rule
 notes

---
 rules.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rules.go b/rules.go
index 8e15eb6..4179670 100644
--- a/rules.go
+++ b/rules.go
@@ -131,12 +131,22 @@ type Rule struct {
 }
 
 func (r *Rule) Name() string {
+	if r.Account == nil {
+		return "--"
+	}
 	return r.Account.FullName
 }
 
 func (r *Rule) Write(w io.Writer, max int) error {
-	_, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.Name(), r.String())
-	return err
+	if _, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.Name(), r.String()); err != nil {
+		return err
+	}
+	for _, n := range r.Notes {
+		if _, err := fmt.Fprintf(w, "    ; %s\n", n); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func (r *Rule) RuleFor(payee string) *Rule {
-- 
2.43.0


From 87dfddc4c3334e6baae25a2a93ac1981c38e5314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 17/33] fix: in-place rewrites could lose the ledger file

Errors writing the new content were ignored before the old file was
deleted, and a crash between deleting and renaming left no file at all.
The complete new file now replaces the old one with a single rename.
---
 cmd/coin/format.go | 20 +++++++++++++-------
 cmd/coin/modify.go | 10 ++++++----
 cmd/coin/test.go   |  1 -
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/cmd/coin/format.go b/cmd/coin/format.go
index a917fbf..87b3993 100644
--- a/cmd/coin/format.go
+++ b/cmd/coin/format.go
@@ -41,7 +41,7 @@ func (cmd *cmdFormat) init() {
 
 func (cmd *cmdFormat) execute(f io.Writer) {
 	if len(cmd.Args()) == 0 { // for testing
-		cmd.writeTransactions(f)
+		check.NoError(cmd.writeTransactions(f), "writing transactions")
 		return
 	}
 	for _, fn := range cmd.Args() {
@@ -54,10 +54,11 @@ func (cmd *cmdFormat) execute(f io.Writer) {
 			check.NoError(err, "creating temp file")
 			f = tf
 		}
-		cmd.writeTransactions(f)
+		err = cmd.writeTransactions(f)
+		check.NoError(err, "writing transactions")
 		if cmd.replace {
-			err = os.Remove(fn)
-			check.NoError(err, "deleting old file")
+			err = tf.Close()
+			check.NoError(err, "closing temp file")
 			err = os.Rename(tf.Name(), fn)
 			check.NoError(err, "renaming temp file")
 		}
@@ -65,13 +66,18 @@ func (cmd *cmdFormat) execute(f io.Writer) {
 	}
 }
 
-func (cmd *cmdFormat) writeTransactions(f io.Writer) {
+func (cmd *cmdFormat) writeTransactions(f io.Writer) error {
 	for _, t := range coin.Transactions {
 		if cmd.trimWS {
 			t.Description = trimWS(t.Description)[0]
 			t.Notes = trimWS(t.Notes...)
 		}
-		t.Write(f, cmd.ledger)
-		fmt.Fprintln(f)
+		if err := t.Write(f, cmd.ledger); err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintln(f); err != nil {
+			return err
+		}
 	}
+	return nil
 }
diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index e59c59d..40d40fe 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -96,11 +96,13 @@ func (cmd *cmdModify) execute(f io.Writer) {
 			if cmd.modify(t) {
 				count++
 			}
-			t.Write(tf, false)
-			fmt.Fprintln(tf)
+			err = t.Write(tf, false)
+			check.NoError(err, "writing temp file")
+			_, err = fmt.Fprintln(tf)
+			check.NoError(err, "writing temp file")
 		}
-		err = os.Remove(fn)
-		check.NoError(err, "deleting old file")
+		err = tf.Close()
+		check.NoError(err, "closing temp file")
 		err = os.Rename(tf.Name(), fn)
 		check.NoError(err, "renaming temp file")
 		fmt.Fprintf(os.Stderr, "Updated %d transactions in %s\n", count, fn)
diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 3ce5ecc..7933356 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -169,6 +169,5 @@ func updateTestFile(ts []*coin.Test) {
 	check.NoError(of.Close(), "closing old file")
 	check.NoError(writer.Flush(), "flushing writer")
 	check.NoError(tf.Close(), "closing temp file")
-	check.NoError(os.Remove(fn), "deleting old file")
 	check.NoError(os.Rename(tf.Name(), fn), "renaming temp file %s to %s", tf.Name(), fn)
 }
-- 
2.43.0


From 25a7dfc28c5de5de8bf441626260617f2eb71a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 18/33] fix: one character tag values were lost or kept leading
 blanks

---
 tags.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tags.go b/tags.go
index 00f9d90..351cae9 100644
--- a/tags.go
+++ b/tags.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,]+\S)\s*(,|$))?`)
+var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,\s]([^,]*[^,\s])?)\s*(,|$))?`)
 var tagREXKey = tagREX.SubexpIndex("key")
 var tagREXValue = tagREX.SubexpIndex("value")
 
-- 
2.43.0


From 10e1ee41696225d9f9f6f56bfe14ea633a1b2c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 19/33] fix: literals with more than 50 decimals crashed

---
 pow10.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pow10.go b/pow10.go
index 155aada..36a0fda 100644
--- a/pow10.go
+++ b/pow10.go
@@ -69,5 +69,8 @@ func bigPow10(i int) *big.Int {
 	if i < 1 {
 		return big1
 	}
+	if i > len(bigPow10s) {
+		return new(big.Int).Exp(big10, big.NewInt(int64(i)), nil)
+	}
 	return bigPow10s[i-1]
 }
-- 
2.43.0


From 227ca7f37af42e5b6545793dfd9a731050f883cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 20/33] fix: a sign after the decimal point was accepted

---
 amount.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amount.go b/amount.go
index d9f422e..8d7dab6 100644
--- a/amount.go
+++ b/amount.go
@@ -85,7 +85,7 @@ func parseAmount(s string, c *Commodity) (*Amount, error) {
 		}
 		return NewAmount(bi, c), nil
 	}
-	if len(ss) != 2 {
+	if len(ss) != 2 || strings.ContainsAny(ss[1], "+-") {
 		return nil, fmt.Errorf("malformed value %s", s)
 	}
 	s = strings.Join(ss, "")
-- 
2.43.0


From 23e8b4b5e1950d95afa4364bbfb53e0a49c54948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 21/33] fix: malformed commodity, include and test lines were
 accepted or crashed

---
 commodity.go | 3 +++
 include.go   | 3 +++
 test.go      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/commodity.go b/commodity.go
index b6de17f..7f7b5bf 100644
--- a/commodity.go
+++ b/commodity.go
@@ -151,6 +151,9 @@ var commodityBodyREX = rex.MustCompile(``+
 func (p *Parser) parseCommodity(fn string) (*Commodity, error) {
 	c := &Commodity{Decimals: 2, line: p.lineNr, file: fn}
 	match := commodityHeadREX.Match(p.Bytes())
+	if match == nil {
+		return nil, fmt.Errorf("invalid commodity line: %s", p.Text())
+	}
 	c.Id = match["commodity"]
 	for p.Scan() {
 		line := p.Bytes()
diff --git a/include.go b/include.go
index 054b376..b63dfac 100644
--- a/include.go
+++ b/include.go
@@ -25,6 +25,9 @@ var includeHead = regexp.MustCompile(`include\s+(.+)`)
 
 func (p *Parser) parseInclude(fn string) (*Include, error) {
 	matches := includeHead.FindSubmatch(p.Bytes())
+	if matches == nil {
+		return nil, fmt.Errorf("invalid include line: %s", p.Text())
+	}
 	i := &Include{Path: string(matches[1]), line: p.lineNr, file: fn}
 	p.Scan()
 	return i, nil
diff --git a/test.go b/test.go
index 2a5d88e..2e0f498 100644
--- a/test.go
+++ b/test.go
@@ -18,6 +18,9 @@ var testHead = regexp.MustCompile(`test\s+(.+)`)
 
 func (p *Parser) parseTest(fn string) (*Test, error) {
 	matches := testHead.FindSubmatch(p.Bytes())
+	if matches == nil {
+		return nil, fmt.Errorf("invalid test line: %s", p.Text())
+	}
 	t := &Test{Cmd: string(matches[1]), line: p.lineNr, file: fn}
 	var b bytes.Buffer
 	for p.Scan() {
-- 
2.43.0


From 0191fbefdc13d2ea71577b773b89542fab5313f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 22/33] fix: symbol was lost when printing a commodity

---
 commodity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commodity.go b/commodity.go
index 7f7b5bf..02508eb 100644
--- a/commodity.go
+++ b/commodity.go
@@ -126,6 +126,9 @@ func (c *Commodity) Write(w io.Writer, ledger bool) error {
 		lines = append(lines, "  note ", c.Name, "\n")
 	}
 	lines = append(lines, "  format ", format, " ", c.SafeId(ledger), "\n")
+	if c.Symbol != "" && !ledger {
+		lines = append(lines, "  symbol ", c.Symbol, "\n")
+	}
 	if c.NoMarket {
 		lines = append(lines, "  nomarket\n")
 	}
-- 
2.43.0


From cebcdb5f3ce10a927699fd44e23f68671d8c7335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:30 +0000
Subject: [PATCH 23/33] fix: blank line before the OFX body was lost for an
 empty read buffer

---
 cmd/ofx2coin/bmo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/ofx2coin/bmo.go b/cmd/ofx2coin/bmo.go
index a97d0d0..511bd50 100644
--- a/cmd/ofx2coin/bmo.go
+++ b/cmd/ofx2coin/bmo.go
@@ -53,8 +53,7 @@ func (r *bmoReader) Read(p []byte) (n int, err error) {
 				if bytes.Equal(r.lastLine, []byte("<OFX>\n")) {
 					r.reachedBody = true
 					if !r.emptyLineAfterHeader {
-						n = copy(p, emptyLine)
-						return n, nil
+						r.lastLine = append([]byte("\n"), r.lastLine...)
 					}
 				} else if bytes.Equal(r.lastLine, emptyLine) {
 					r.emptyLineAfterHeader = true
-- 
2.43.0


From a3a22a9ff879eab133d11dea571db62982b65dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:51 +0000
Subject: [PATCH 24/33] fix: rules with one character patterns or a slash in
 the account name matched every payee

---
 rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules.go b/rules.go
index 4179670..04af782 100644
--- a/rules.go
+++ b/rules.go
@@ -156,9 +156,9 @@ func (r *Rule) RuleFor(payee string) *Rule {
 	return nil
 }
 
-var patternRE = `([\w:$^\\-]+)`
+var patternRE = `([\w:$^\\/-]+)`
 var headerRE = regexp.MustCompile(`^(\w+)\s+` + patternRE + `|^(\w+)`)
-var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S.*\S))?|` +
+var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S(?:.*\S)?))?|` +
 	`^\s+@(\w+)|` +
 	`^\s+;\s+(.*)`)
 
-- 
2.43.0


From 8a763bc02cbb8ba0f970e541868101d19a20bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 25/33] fix: importing without a rules file crashed

---
 rules.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rules.go b/rules.go
index 04af782..31d7632 100644
--- a/rules.go
+++ b/rules.go
@@ -26,9 +26,11 @@ type RuleIndex struct {
 }
 
 func (rs *RuleIndex) AccountRulesFor(acctId string) *AccountRules {
-	ars := rs.Accounts[acctId]
-	if ars != nil {
-		return ars
+	if rs != nil { // there may be no rules at all
+		ars := rs.Accounts[acctId]
+		if ars != nil {
+			return ars
+		}
 	}
 	account := FindAccountOfxId(acctId)
 	check.If(account != nil, "could not find account for Acct ID %s", acctId)
-- 
2.43.0


From b82159934885aa8ae9c74aa6c62d009f7b94475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:46 +0000
Subject: [PATCH 26/33] fix: date offsets have a unit and no more digits than
 dates can move by

---
 date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.go b/date.go
index 9a3739f..302c26d 100644
--- a/date.go
+++ b/date.go
@@ -54,7 +54,7 @@ var YearFormat = "2006"
 var ymd = rex.MustCompile(`` +
 	`((?P<ymd>((?P<ymdy>\d\d(\d\d)?)/)?(?P<ymdm>\d{1,2})/(?P<ymdd>\d{1,2}))|` +
 	`(?P<ym>(?P<ymy>\d{4})(/(?P<ymm>\d{1,2}))?))`)
-var offset = rex.MustCompile(`(?P<offset>[+-]\d+[d|w|m|y])`)
+var offset = rex.MustCompile(`(?P<offset>[+-]\d{1,6}[dwmy])`)
 var DateREX = rex.MustCompile(`(?P<date>%s?%s?)`, ymd, offset)
 
 func mustParseDate(match map[string]string, idx int) time.Time {
-- 
2.43.0


From 2cc8f01331604bc8d60090f4ccffea164326a060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:50 +0000
Subject: [PATCH 27/33] fix: refuse command line dates with trailing text

---
 date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.go b/date.go
index 302c26d..3d7be7d 100644
--- a/date.go
+++ b/date.go
@@ -40,7 +40,7 @@ func (d *Date) String() string {
 
 func (d *Date) Set(s string) (err error) {
 	match := DateREX.Match([]byte(s))
-	if match == nil {
+	if match == nil || match["date"] != s {
 		return fmt.Errorf("invalid date: %s", s)
 	}
 	d.Time, err = parseDate(match, 0)
-- 
2.43.0


From 4a4bdd70db7fba19f8f86364dcce9e848d7a7cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:02 +0000
Subject: [PATCH 28/33] fix: ResolveAccounts keeps a declared Unbalanced
 account

An account named Unbalanced declared in the ledger was replaced by a blank
one, losing its description, commodity and closing date.
---
 coin.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index 727c225..588717e 100644
--- a/coin.go
+++ b/coin.go
@@ -168,8 +168,11 @@ func ResolveAccounts() {
 		}
 	}
 	if Unbalanced == nil {
-		Unbalanced = accountFromName("Unbalanced")
-		AccountsByName["Unbalanced"] = Unbalanced
+		Unbalanced = AccountsByName["Unbalanced"]
+		if Unbalanced == nil {
+			Unbalanced = accountFromName("Unbalanced")
+			AccountsByName["Unbalanced"] = Unbalanced
+		}
 	}
 
 	// create parents if missing
-- 
2.43.0


From 07eeb216ad0ff8dbd3e7fcf2811b6fb263e8b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:02 +0000
Subject: [PATCH 29/33] fix: one character account notes are accepted

---
 account.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/account.go b/account.go
index 738ae1f..6cb18e9 100644
--- a/account.go
+++ b/account.go
@@ -83,7 +83,7 @@ var accountNameREX = rex.MustCompile(`([A-Za-z][\w/_\-]*)`)
 var AccountREX = rex.MustCompile(`(?P<account>%s(:%s)*)`, accountNameREX, accountNameREX)
 var accountHeadREX = rex.MustCompile(`account\s+%s`, AccountREX)
 var accountBodyREX = rex.MustCompile(``+
-	`(\s+note\s+(?P<note>\S.+))|`+
+	`(\s+note\s+(?P<note>\S.*))|`+
 	`(\s+commodity\s+%s)|`+
 	`(\s+closed\s+%s)|`+
 	`(\s+ofx_bankid\s+(?P<ofx_bankid>\d+))|`+
-- 
2.43.0


From 7afa0d6689e8fc9da3b6e381a9d664eb351c49b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:02 +0000
Subject: [PATCH 30/33] fix: a note is not read as the description of a
 transaction without one

---
 transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index dba4900..98e7dce 100644
--- a/transaction.go
+++ b/transaction.go
@@ -117,7 +117,7 @@ func (t *Transaction) Write(w io.Writer, ledger bool) error {
 	return nil
 }
 
-var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>\S[^;]*))?(; ?(?P<shortNote>.*))?`, DateREX)
+var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>[^\s;][^;]*))?(\s*; ?(?P<shortNote>.*))?`, DateREX)
 var postingREX = rex.MustCompile(``+
 	`^\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
 	`^\s+; ?(?P<note>.*)`,
-- 
2.43.0


From 87d26d03db8193d2cb92e9d50fa9ff247d6e67e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:02 +0000
Subject: [PATCH 31/33] fix: leading blanks of notes on the line of a
 transaction or posting are kept

---
 transaction.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transaction.go b/transaction.go
index 98e7dce..9b3ded4 100644
--- a/transaction.go
+++ b/transaction.go
@@ -135,7 +135,7 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		line:        p.lineNr,
 		file:        fn,
 	}
-	if n := strings.TrimLeft(match["shortNote"], " \t"); len(n) > 0 {
+	if n := match["shortNote"]; len(n) > 0 {
 		t.Notes = []string{n}
 	}
 	var notes []string
@@ -173,7 +173,7 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 			accountName: match["account"],
 			Quantity:    quantity,
 		}
-		if n := strings.TrimLeft(match["shortNote"], " \t"); len(n) > 0 {
+		if n := match["shortNote"]; len(n) > 0 {
 			s.Notes = []string{n}
 		}
 		if balance := match["amount2"]; len(balance) > 0 {
-- 
2.43.0


From 8c47dbc086c7f3464400bafbda982fa91ddbbda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:54 +0000
Subject: [PATCH 32/33] fix: magnitudes of amounts of different precisions are
 compared after rescaling

---
 amount.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amount.go b/amount.go
index 8d7dab6..42689fe 100644
--- a/amount.go
+++ b/amount.go
@@ -154,7 +154,7 @@ func (a *Amount) Magnitude() *big.Int {
 func (a *Amount) IsBigger(b *Amount) bool  { return a.CmpMagnitude(b) > 0 }
 func (a *Amount) IsSmaller(b *Amount) bool { return a.CmpMagnitude(b) < 0 }
 func (a *Amount) CmpMagnitude(b *Amount) int {
-	return a.Magnitude().Cmp(b.Magnitude())
+	return a.Int.CmpAbs(b.adjustedTo(a))
 }
 
 // func (a *Amount) DivBy(b *Amount) *Amount {
-- 
2.43.0


From 03e0d24fd3ecb8852d1208d107893b6621811c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:46 +0000
Subject: [PATCH 33/33] fix: modify: keep an added tag out of the value of the
 note's last tag

Appended after a space to a note ending in a tag with a value, the tag line
became part of that value when the ledger was read again, so the added tag was
lost and the existing one changed.
---
 cmd/coin/modify.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 40d40fe..3041121 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -168,7 +168,11 @@ func addTagLine(notes []string, tagLine string) []string {
 		return append(notes, tagLine)
 	}
 	if len(notes[0])+len(tagLine) < coin.TRANSACTION_LINE_MAX {
-		notes[0] += " " + tagLine
+		sep := " "
+		if strings.Contains(notes[0], "#") {
+			sep = ", " // or the tag line becomes part of the value of the last tag
+		}
+		notes[0] += sep + tagLine
 		return notes
 	}
 	return append(notes, tagLine)
-- 
2.43.0

