From 6625d07ba0d1d2caeff1e5a6a7021cea6b84932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 01/48] fix: count the decimals of a currency, not the size of
 its denominator

0.25 has denominator 4 and was given one decimal, so every exported or
reported amount was rounded to 0.2 or 0.3.
---
 book/builder.go | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index 6d73cf4..379d4a4 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -18,27 +18,13 @@ type Builder struct {
 func (b *Builder) Build() *Book {
 	b.checkAndClearTransaction()
 
-	// Get the largest denominators by currency
-	mmap := make(map[string]*big.Int)
-	for _, p := range b.post {
-		eval, ok := mmap[p.GetCCY()]
-		if !ok || eval.Cmp(p.GetAmount().Denom()) < 0 {
-			mmap[p.GetCCY()] = p.GetAmount().Denom()
-		}
-	}
-
-	// Convert to number of decimals
+	// Get the largest number of decimals by currency
 	rmap := make(map[string]int)
-	ten := big.NewInt(10)
-	for k, v := range mmap {
-		p := big.NewInt(1)
-		c := 0
-		// for as long as Denom is bigger keep doing p = p * 10
-		for p.Cmp(v) < 0 {
-			p.Mul(p, ten)
-			c += 1
+	for _, p := range b.post {
+		n, _ := GetDecimals(p.GetAmount())
+		if cur, ok := rmap[p.GetCCY()]; !ok || cur < n {
+			rmap[p.GetCCY()] = n
 		}
-		rmap[k] = c
 	}
 
 	nbook := &Book{
@@ -54,6 +40,30 @@ func (b *Builder) Build() *Book {
 	return nbook
 }
 
+// GetDecimals returns the number of decimals needed to write the amount exactly.
+//
+// The second value is false if no number of decimals is enough (eg 1/3). In that case
+// it returns the number of digits of the denominator.
+func GetDecimals(amt *big.Rat) (int, bool) {
+	ten := big.NewInt(10)
+	pow := big.NewInt(1)
+	rem := big.NewInt(0)
+	digits := 0
+
+	// A denominator of 2^a * 5^b divides 10^max(a,b), which is never more than its bits
+	for c := 0; c <= amt.Denom().BitLen(); c++ {
+		if rem.Rem(pow, amt.Denom()).Sign() == 0 {
+			return c, true
+		}
+		if pow.Cmp(amt.Denom()) < 0 {
+			digits = c + 1
+		}
+		pow.Mul(pow, ten)
+	}
+
+	return digits, false
+}
+
 func NewBookBuilder() *Builder {
 	return &Builder{
 		post:      make([]Posting, 0, 200),
-- 
2.43.0


From afc2270d7f323299beba49048a46a1b917def098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 02/48] fix: export the posting's own note in JSON, not the
 transaction's

---
 book/posting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/posting.go b/book/posting.go
index d15fbb5..92390da 100644
--- a/book/posting.go
+++ b/book/posting.go
@@ -124,6 +124,6 @@ func (p Posting) MarshalJSON() ([]byte, error) {
 		Account: p.acct,
 		CCY:     p.ccy,
 		Amount:  amt,
-		Note:    p.tnote,
+		Note:    p.note,
 	})
 }
-- 
2.43.0


From b895bd83e6464b019afa6ad32e8e943ddfb743b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 03/48] fix: keep the displayed account name in step with the
 account

Postings straight from a file, and reclassified ones, had an empty or stale
display name, so text and HTML reports showed blank accounts.
---
 book/book_reclassify.go | 2 ++
 book/builder.go         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/book/book_reclassify.go b/book/book_reclassify.go
index 79091b3..afc68ee 100644
--- a/book/book_reclassify.go
+++ b/book/book_reclassify.go
@@ -87,6 +87,8 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 
 		if max_match > 0.0 {
 			trans[ctrans].acct = max_cacct
+			trans[ctrans].acctlevel = 0
+			trans[ctrans].acctterm = max_cacct
 		}
 	}
 }
diff --git a/book/builder.go b/book/builder.go
index 379d4a4..669ad16 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -124,6 +124,8 @@ func (b *Builder) AddPosting(acct string, ccy string, amt *big.Rat, note string)
 		val:   amt,
 		note:  note,
 		bal:   big.NewRat(0, 1),
+
+		acctterm: acct,
 	})
 
 	v, ok := b.currAmts[ccy]
-- 
2.43.0


From ab5f97b519e8a6d4ac5d9d51f44104845d9cc9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 04/48] fix: convert register amounts into the base currency,
 not out of it

---
 book/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/registry.go b/book/registry.go
index 62fea97..8b8f028 100644
--- a/book/registry.go
+++ b/book/registry.go
@@ -130,7 +130,7 @@ func (b *Book) ExtractRegister(baseccy string, re *regexp.Regexp, split bool) Re
 					if r != nil {
 						baseSource = PriceTypeTrade
 					} else {
-						r, baseSource = b.GetPrice(trans.GetDate(), baseccy, p.GetCCY())
+						r, baseSource = b.GetPrice(trans.GetDate(), p.GetCCY(), baseccy)
 					}
 					baseAmt = big.NewRat(0, 1).Mul(r, camts[i])
 				}
-- 
2.43.0


From b8d020f3c38857ff734079f411737be766ec34aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 05/48] fix: count the day of the month in AsYears

---
 book/date.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/book/date.go b/book/date.go
index 5aa2bd0..51c76e4 100644
--- a/book/date.go
+++ b/book/date.go
@@ -243,7 +243,6 @@ func (date Date) AsYears() float64 {
 	isLeapYear := YearIsLeapYear(year)
 
 	// Add in month-to-date (without leaps)
-	day = 0
 	for i := 0; i < month; i++ {
 		day += monthDays[i]
 
-- 
2.43.0


From 841e2b4df04fd66c455b24e69b0e51b0ac1b0858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 06/48] fix: do not let a summary report reorder and overwrite
 the book's postings

addEmptyAccounts appends to and sorts the slice it is given, which shared its
backing array with the book.
---
 book/book_accum.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index e1270b6..f94d388 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -170,7 +170,8 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 	// Only need some of compact functionality
 	b.compact()
 
-	posts := b.post
+	// Work on a copy -- adding the empty accounts must not reach into the book
+	posts := append([]Posting(nil), b.post...)
 
 	if len(posts) == 0 {
 		return b.Transactions()
-- 
2.43.0


From bc6bd698c141be019b7b37832ec0c2676851f550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 07/48] fix: make Duplicate independent of the book it copies

The copy shared its amounts, balances, prices and decimals with the original,
so mapping one changed the other.
---
 book/book.go  | 20 ++++++++++++++++----
 book/price.go | 11 +++++++++++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/book/book.go b/book/book.go
index 036f9ac..9da3c2c 100644
--- a/book/book.go
+++ b/book/book.go
@@ -45,10 +45,22 @@ func (b *Book) GetPriceList(unit string, ccy string) PriceList {
 
 func (b *Book) Duplicate() *Book {
 	newp := make([]Posting, len(b.post), len(b.post))
-	copy(newp, b.post)
-	newt := make([]Transaction, len(b.trans), len(b.trans))
-	copy(newt, b.trans)
-	return &Book{newp, newt, b.prices, b.ccy}
+	for i, p := range b.post {
+		p.val = big.NewRat(0, 1).Set(p.val)
+		p.bal = big.NewRat(0, 1).Set(p.bal)
+		newp[i] = p
+	}
+	newccy := make(map[string]int)
+	for ccy, dec := range b.ccy {
+		newccy[ccy] = dec
+	}
+	nbook := &Book{
+		post:   newp,
+		prices: b.prices.duplicate(),
+		ccy:    newccy,
+	}
+	nbook.compact()
+	return nbook
 }
 
 func (b *Book) GetCCYDecimals() map[string]int {
diff --git a/book/price.go b/book/price.go
index f853d42..afe1122 100644
--- a/book/price.go
+++ b/book/price.go
@@ -172,6 +172,17 @@ type priceBook struct {
 	data map[PricePair]PriceList
 }
 
+// Duplicate the price book
+func (p *priceBook) duplicate() *priceBook {
+	pb := &priceBook{
+		data: make(map[PricePair]PriceList),
+	}
+	for pair, plist := range p.data {
+		pb.data[pair] = append(PriceList(nil), plist...)
+	}
+	return pb
+}
+
 // Get a price for a particular date, unit, and ccy and return the rate.
 //
 // If unit == ccy it returns 1.
-- 
2.43.0


From be1c4543a45b8f6f2b0d35d82e1e0bda729190f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 08/48] fix: keep the transactions found by
 FilterTransactionReverse

---
 book/book.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/book/book.go b/book/book.go
index 9da3c2c..9bff3a9 100644
--- a/book/book.go
+++ b/book/book.go
@@ -244,6 +244,7 @@ func (b *Book) FilterTransactionReverse(filter func(date Date, payee string, pos
 	}
 
 	b.post = newp
+	b.trans = newt
 }
 
 func (b *Book) FilterTransaction(filter func(date Date, payee string, posts Transaction) bool) {
-- 
2.43.0


From 1de1b1984040b1e1f170e8b92c1f14b583520892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 09/48] fix: list accounts with a balance in any currency, not
 only in the last one used

---
 book/book.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/book/book.go b/book/book.go
index 9bff3a9..59e7908 100644
--- a/book/book.go
+++ b/book/book.go
@@ -210,18 +210,19 @@ func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float6
 // TODO: This only applies where balance is already calculated!
 func (b *Book) Accounts(reg string, onlyWithBalance bool) []string {
 	re := regexp.MustCompile(reg)
-	lbal := make(map[string]*big.Rat)
+	lbal := make(map[[2]string]*big.Rat)
 	accts := make([]string, 0, 10)
 	for _, p := range b.post {
 		if re.MatchString(p.GetAccount()) {
-			lbal[p.GetAccount()] = p.GetBalance()
+			lbal[[2]string{p.GetAccount(), p.GetCCY()}] = p.GetBalance()
 		}
 	}
 
-	var zero big.Int
-	for acct, bal := range lbal {
-		if !onlyWithBalance || bal.Num().Cmp(&zero) != 0 {
-			accts = append(accts, acct)
+	found := make(map[string]bool)
+	for key, bal := range lbal {
+		if (!onlyWithBalance || bal.Sign() != 0) && !found[key[0]] {
+			found[key[0]] = true
+			accts = append(accts, key[0])
 		}
 	}
 	sort.Strings(accts)
-- 
2.43.0


From 1743d10fede8a95198e6b984e83f9c7711675577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 10/48] fix: close a beancount account only if it is empty in
 every currency

The balance of the last posting alone was looked at, and accounts whose names
only differ in case share one beancount account.
---
 cmd/export/beancount.go  | 27 +++++++++++++++++++--------
 cmd/reports/beancount.go | 27 +++++++++++++++++++--------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index b84366e..e5aa0f0 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -24,26 +24,31 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 
 	// Gather account info
 	type accountInfo struct {
-		first  book.Date
-		last   book.Date
-		isZero bool
+		first   book.Date
+		last    book.Date
+		balance map[string]*big.Rat
 	}
 	lstats := make(map[string]*accountInfo)
-	var zero big.Rat
 	for _, t := range trans {
 		for _, p := range t {
 			acct := FormatAccount(p.GetAccount())
 			stats, ok := lstats[acct]
 			if !ok {
 				stats = &accountInfo{
-					first: p.GetDate(),
-					last:  p.GetDate(),
+					first:   p.GetDate(),
+					last:    p.GetDate(),
+					balance: make(map[string]*big.Rat),
 				}
 				lstats[acct] = stats
 			} else {
 				stats.last = p.GetDate()
 			}
-			stats.isZero = (p.GetBalance().Cmp(&zero) == 0)
+			bal, ok := stats.balance[p.GetCCY()]
+			if !ok {
+				bal = big.NewRat(0, 1)
+				stats.balance[p.GetCCY()] = bal
+			}
+			bal.Add(bal, p.GetAmount())
 		}
 	}
 
@@ -55,7 +60,13 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 	// Account open close
 	for acct, stats := range lstats {
 		b.Printf("%s open %s\n", stats.first, acct)
-		if stats.isZero {
+		isZero := true
+		for _, bal := range stats.balance {
+			if bal.Sign() != 0 {
+				isZero = false
+			}
+		}
+		if isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
 		}
 	}
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index ee2eb09..3a81e4f 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -22,32 +22,43 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 
 	// Gather account info
 	type accountInfo struct {
-		first  book.Date
-		last   book.Date
-		isZero bool
+		first   book.Date
+		last    book.Date
+		balance map[string]*big.Rat
 	}
 	lstats := make(map[string]*accountInfo)
-	var zero big.Rat
 	for _, t := range trans {
 		for _, p := range t {
 			acct := FormatAccount(p.GetAccount())
 			stats, ok := lstats[acct]
 			if !ok {
 				stats = &accountInfo{
-					first: p.GetDate(),
-					last:  p.GetDate(),
+					first:   p.GetDate(),
+					last:    p.GetDate(),
+					balance: make(map[string]*big.Rat),
 				}
 				lstats[acct] = stats
 			} else {
 				stats.last = p.GetDate()
 			}
-			stats.isZero = (p.GetBalance().Cmp(&zero) == 0)
+			bal, ok := stats.balance[p.GetCCY()]
+			if !ok {
+				bal = big.NewRat(0, 1)
+				stats.balance[p.GetCCY()] = bal
+			}
+			bal.Add(bal, p.GetAmount())
 		}
 	}
 
 	for acct, stats := range lstats {
 		b.Printf("%s open %s\n", stats.first, acct)
-		if stats.isZero {
+		isZero := true
+		for _, bal := range stats.balance {
+			if bal.Sign() != 0 {
+				isZero = false
+			}
+		}
+		if isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
 		}
 	}
-- 
2.43.0


From e652b8f3bd6c256b45b49049517de3ac4ed706ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 11/48] fix: recalculate balances before listing the accounts
 that have one

Filters and currency mapping leave the balances of the unfiltered book behind.
---
 book/book.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/book.go b/book/book.go
index 59e7908..6aaac39 100644
--- a/book/book.go
+++ b/book/book.go
@@ -207,9 +207,9 @@ func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float6
 }
 
 // Find all the accounts matching regular expression reg that have non-zero balances
-// TODO: This only applies where balance is already calculated!
 func (b *Book) Accounts(reg string, onlyWithBalance bool) []string {
 	re := regexp.MustCompile(reg)
+	b.compact()
 	lbal := make(map[[2]string]*big.Rat)
 	accts := make([]string, 0, 10)
 	for _, p := range b.post {
-- 
2.43.0


From 3170804d47365fe5662f32423ba722e24d3096bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 12/48] fix: report invalid regular expressions and periods
 instead of crashing

map, mapccy, move, depreciate, accts and register compiled the user's regular
expression with MustCompile, and depreciating over zero months divided by zero.
The register matched account names as if they were regular expressions.
---
 book/book.go             | 28 +++++++++++++++++++++-------
 book/book_utils.go       | 17 +++++++++++++----
 cmd/accounts/accounts.go | 13 +++++++------
 cmd/app/book_op.go       | 12 ++++--------
 cmd/register/register.go |  8 ++++++--
 script/book_op.go        |  4 +++-
 6 files changed, 54 insertions(+), 28 deletions(-)

diff --git a/book/book.go b/book/book.go
index 6aaac39..a2c2cf7 100644
--- a/book/book.go
+++ b/book/book.go
@@ -145,8 +145,14 @@ func (b *Book) AdjustBy(by string) {
 // 1 divided over three periods would be 0.33333 by three, so 0.34 (displayed) by three, adding
 // up to 1.
 //
-func (b *Book) Depreciate(search_acct string, replace_acct string, period string, periods int64) {
-	re := regexp.MustCompile(search_acct)
+func (b *Book) Depreciate(search_acct string, replace_acct string, period string, periods int64) error {
+	re, err := regexp.Compile(search_acct)
+	if err != nil {
+		return fmt.Errorf("invalid account regex '%s': %w", search_acct, err)
+	}
+	if periods <= 0 {
+		return fmt.Errorf("invalid number of periods %d: must be positive", periods)
+	}
 
 	newposts := b.post
 	for _, p := range b.post {
@@ -178,6 +184,7 @@ func (b *Book) Depreciate(search_acct string, replace_acct string, period string
 
 	b.post = newposts
 	b.compact()
+	return nil
 }
 
 // Create Adjust Postings
@@ -188,8 +195,11 @@ func (b *Book) Depreciate(search_acct string, replace_acct string, period string
 // search_acct - posting accounts to match
 // replace_acct - account to transfer amount into
 // factor - portion of original posting to transform
-func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float64) {
-	re := regexp.MustCompile(search_acct)
+func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float64) error {
+	re, err := regexp.Compile(search_acct)
+	if err != nil {
+		return fmt.Errorf("invalid account regex '%s': %w", search_acct, err)
+	}
 	var r, i big.Rat
 	r.SetFloat64(factor)
 	i.Neg(&r)
@@ -204,11 +214,15 @@ func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float6
 
 	b.post = newposts
 	b.compact()
+	return nil
 }
 
 // Find all the accounts matching regular expression reg that have non-zero balances
-func (b *Book) Accounts(reg string, onlyWithBalance bool) []string {
-	re := regexp.MustCompile(reg)
+func (b *Book) Accounts(reg string, onlyWithBalance bool) ([]string, error) {
+	re, err := regexp.Compile(reg)
+	if err != nil {
+		return nil, fmt.Errorf("invalid account regex '%s': %w", reg, err)
+	}
 	b.compact()
 	lbal := make(map[[2]string]*big.Rat)
 	accts := make([]string, 0, 10)
@@ -226,7 +240,7 @@ func (b *Book) Accounts(reg string, onlyWithBalance bool) []string {
 		}
 	}
 	sort.Strings(accts)
-	return accts
+	return accts, nil
 }
 
 func (b *Book) FilterTransactionReverse(filter func(date Date, payee string, posts Transaction) bool) {
diff --git a/book/book_utils.go b/book/book_utils.go
index cbdc0a3..6b37361 100644
--- a/book/book_utils.go
+++ b/book/book_utils.go
@@ -1,6 +1,7 @@
 package book
 
 import (
+	"fmt"
 	"math/big"
 	"regexp"
 )
@@ -13,8 +14,11 @@ import (
 // replace replace regular expression string (if non-empty)
 // alt     replace string if it doesn't match (if non-empty)
 //
-func (b *Book) RegexAccounts(search string, replace string, alt string) {
-	re := regexp.MustCompile(search)
+func (b *Book) RegexAccounts(search string, replace string, alt string) error {
+	re, err := regexp.Compile(search)
+	if err != nil {
+		return fmt.Errorf("invalid account regex '%s': %w", search, err)
+	}
 	b.MapAccount(func(acct string) string {
 		if alt != "" && !re.MatchString(acct) {
 			return alt
@@ -24,11 +28,15 @@ func (b *Book) RegexAccounts(search string, replace string, alt string) {
 		}
 		return acct
 	})
+	return nil
 }
 
-func (b *Book) RegexCCY(search string, replace string) {
+func (b *Book) RegexCCY(search string, replace string) error {
 	one := big.NewRat(1, 1)
-	re := regexp.MustCompile(search)
+	re, err := regexp.Compile(search)
+	if err != nil {
+		return fmt.Errorf("invalid currency regex '%s': %w", search, err)
+	}
 
 	// Map all the postings
 	b.MapAmount(func(date Date, ccy string) (*big.Rat, string) {
@@ -54,6 +62,7 @@ func (b *Book) RegexCCY(search string, replace string) {
 		b.prices.data[newpair] = pl
 		delete(b.prices.data, ccypair)
 	}
+	return nil
 }
 
 func (b *Book) FilterByDateSince(minDate Date) {
diff --git a/cmd/accounts/accounts.go b/cmd/accounts/accounts.go
index 1712049..2b07e3a 100644
--- a/cmd/accounts/accounts.go
+++ b/cmd/accounts/accounts.go
@@ -29,19 +29,20 @@ func Add(cmd *cobra.Command, app *rapp.App) {
 			regex = args[0]
 		}
 
+		accts, err := b.Accounts(regex, !app.All)
+		if err != nil {
+			return err
+		}
+
 		// Create printer
 		bp := app.NewBookPrinter(b.GetCCYDecimals())
 
 		if useJson {
-			accts := make([]string, 0, 100)
-			for _, acct := range b.Accounts(regex, !app.All) {
-				accts = append(accts, acct)
-			}
-			bp.PrintJSON(accts, true)
+			return bp.PrintJSON(accts, true)
 		} else {
 			rows := make([][]rapp.ColumnValue, 0, 100)
 			rows = append(rows, []rapp.ColumnValue{rapp.ColumnString(bp.Ansi(rapp.BlueUL, "Account"))})
-			for _, acct := range b.Accounts(regex, !app.All) {
+			for _, acct := range accts {
 				rows = append(rows, []rapp.ColumnValue{rapp.ColumnString(acct)})
 			}
 			bp.PrintColumns(rows, []bool{false})
diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 8ee9a44..0bb8b4d 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -121,15 +121,13 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("mapccy operation '%s', invalid: must be format '%s'", op_act, map_op.String())
 		}
-		b.RegexCCY(args[1], args[2])
-		return nil
+		return b.RegexCCY(args[1], args[2])
 	case "map=":
 		args := map_op.FindStringSubmatch(op_act)
 		if args == nil {
 			return fmt.Errorf("map operation '%s', invalid: must be format '%s'", op_act, map_op.String())
 		}
-		b.RegexAccounts(args[1], args[2], args[4])
-		return nil
+		return b.RegexAccounts(args[1], args[2], args[4])
 	case "move=":
 		args := move_op.FindStringSubmatch(op_act)
 		if args == nil {
@@ -139,8 +137,7 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if err != nil {
 			return fmt.Errorf("move factor '%s', invalid: must be float: %v", args[3], err)
 		}
-		b.AdjustPost(args[1], args[2], factor)
-		return nil
+		return b.AdjustPost(args[1], args[2], factor)
 	case "asof=":
 		d := book.DateFromString(op_act)
 		if d == book.Date(0) {
@@ -173,8 +170,7 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if err != nil {
 			return fmt.Errorf("depreciate months '%s', invalid: must be integer: %v", args[3], err)
 		}
-		b.Depreciate(args[1], args[2], "monthly", months)
-		return nil
+		return b.Depreciate(args[1], args[2], "monthly", months)
 	default:
 		return fmt.Errorf("operation type '%s' invalid: must be one of map, move, since, asof, combine, or depreciate", op_type)
 	}
diff --git a/cmd/register/register.go b/cmd/register/register.go
index 649cd66..12d3f61 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -104,9 +104,13 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 		return ShowReport(bp, rep, reg.Type, reg.Count, reg.Asc, true, true)
 	}
 
-	for _, acct := range b.Accounts(arg, !rapp.All) {
+	accts, err := b.Accounts(arg, !rapp.All)
+	if err != nil {
+		return err
+	}
+	for _, acct := range accts {
 		bp.Printf("\n%s\n", bp.Ansi(app.BlueUL, acct))
-		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", acct))
+		acctRe, err := regexp.Compile("^" + regexp.QuoteMeta(acct) + "$")
 		if err != nil {
 			return fmt.Errorf("failed compiling re for account '%s': %w", acct, err)
 		}
diff --git a/script/book_op.go b/script/book_op.go
index 0773809..77f9a1e 100644
--- a/script/book_op.go
+++ b/script/book_op.go
@@ -23,7 +23,9 @@ var mapf = starlark.NewBuiltin("map",
 		if !ok {
 			return starlark.None, fmt.Errorf("%w: %s", userError, "bound to not a book")
 		}
-		bb.b.RegexAccounts(from, to, alt)
+		if err := bb.b.RegexAccounts(from, to, alt); err != nil {
+			return starlark.None, fmt.Errorf("%w: %v", userError, err)
+		}
 		return val, nil
 	})
 
-- 
2.43.0


From 1503818123aa9209bb44044f26d8d7815b99238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 13/48] fix: move exactly the given share of an amount

The factor went through a float64, so moving 0.2 of 10 moved 2.0000000000000001110.
---
 book/book.go       | 9 ++++-----
 cmd/app/book_op.go | 7 ++++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/book/book.go b/book/book.go
index a2c2cf7..9969a93 100644
--- a/book/book.go
+++ b/book/book.go
@@ -195,20 +195,19 @@ func (b *Book) Depreciate(search_acct string, replace_acct string, period string
 // search_acct - posting accounts to match
 // replace_acct - account to transfer amount into
 // factor - portion of original posting to transform
-func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float64) error {
+func (b *Book) AdjustPost(search_acct string, replace_acct string, factor *big.Rat) error {
 	re, err := regexp.Compile(search_acct)
 	if err != nil {
 		return fmt.Errorf("invalid account regex '%s': %w", search_acct, err)
 	}
-	var r, i big.Rat
-	r.SetFloat64(factor)
-	i.Neg(&r)
+	var i big.Rat
+	i.Neg(factor)
 	newposts := b.post
 	for _, p := range b.post {
 		if re.MatchString(p.GetAccount()) {
 			newposts = append(newposts, p.byFactor(&i))
 			nacct := re.ReplaceAllString(p.GetAccount(), replace_acct)
-			newposts = append(newposts, p.byAcctFactor(nacct, &r))
+			newposts = append(newposts, p.byAcctFactor(nacct, factor))
 		}
 	}
 
diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 0bb8b4d..4c67c65 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -3,6 +3,7 @@ package app
 import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
+	"math/big"
 	"regexp"
 	"strconv"
 	"strings"
@@ -133,9 +134,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("move operation '%s', invalid: must be format '%s'", op_act, move_op.String())
 		}
-		factor, err := strconv.ParseFloat(args[3], 64)
-		if err != nil {
-			return fmt.Errorf("move factor '%s', invalid: must be float: %v", args[3], err)
+		factor, ok := (&big.Rat{}).SetString(args[3])
+		if !ok {
+			return fmt.Errorf("move factor '%s', invalid: must be a decimal number", args[3])
 		}
 		return b.AdjustPost(args[1], args[2], factor)
 	case "asof=":
-- 
2.43.0


From baee82d1c785dc432d957110afa2f02bb606d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 14/48] fix: rename every currency exactly once, with its
 prices and decimals

RegexCCY inserted into and deleted from the price map while ranging over it, so
a renamed pair could be renamed again or overwrite another pair's prices, and
the decimals stayed under the old name. Price pairs are now listed in order.
---
 book/book.go       |  7 +++++++
 book/book_utils.go | 23 ++++++++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/book/book.go b/book/book.go
index 9969a93..9ddf06d 100644
--- a/book/book.go
+++ b/book/book.go
@@ -30,11 +30,18 @@ type PricePair struct {
 	CCY  string
 }
 
+// GetPricePairs returns the pairs there are prices for, ordered by unit and currency.
 func (b *Book) GetPricePairs() []PricePair {
 	pairs := make([]PricePair, 0, len(b.prices.data))
 	for pair, _ := range b.prices.data {
 		pairs = append(pairs, pair)
 	}
+	sort.Slice(pairs, func(i, j int) bool {
+		if pairs[i].Unit != pairs[j].Unit {
+			return pairs[i].Unit < pairs[j].Unit
+		}
+		return pairs[i].CCY < pairs[j].CCY
+	})
 
 	return pairs
 }
diff --git a/book/book_utils.go b/book/book_utils.go
index 6b37361..d68e062 100644
--- a/book/book_utils.go
+++ b/book/book_utils.go
@@ -48,7 +48,8 @@ func (b *Book) RegexCCY(search string, replace string) error {
 	})
 
 	// Map the prices
-	for ccypair, pl := range b.prices.data {
+	nprices := newPriceBookBuilder()
+	for _, ccypair := range b.GetPricePairs() {
 		newpair := ccypair
 		if re.MatchString(ccypair.Unit) {
 			newpair.Unit = re.ReplaceAllString(ccypair.Unit, replace)
@@ -56,12 +57,24 @@ func (b *Book) RegexCCY(search string, replace string) error {
 		if re.MatchString(ccypair.CCY) {
 			newpair.CCY = re.ReplaceAllString(ccypair.CCY, replace)
 		}
-		if newpair.Unit == ccypair.Unit && newpair.CCY == ccypair.CCY {
-			continue
+		for _, price := range b.GetPriceList(ccypair.Unit, ccypair.CCY) {
+			nprices.addPrice(price.date, newpair.Unit, newpair.CCY, price.val)
 		}
-		b.prices.data[newpair] = pl
-		delete(b.prices.data, ccypair)
 	}
+	b.prices = nprices.build()
+
+	// Map the decimals
+	nccy := make(map[string]int)
+	for ccy, dec := range b.ccy {
+		newccy := ccy
+		if re.MatchString(ccy) {
+			newccy = re.ReplaceAllString(ccy, replace)
+		}
+		if cur, ok := nccy[newccy]; !ok || cur < dec {
+			nccy[newccy] = dec
+		}
+	}
+	b.ccy = nccy
 	return nil
 }
 
-- 
2.43.0


From a40fe694683e88b2150982176fc6756eef05f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 15/48] fix: make the order of output independent of map
 iteration

Beancount accounts, currencies, imported JSON keys, completions and the choice
between equally good reclassifications changed from run to run.
---
 book/book_reclassify.go      |  6 ++++--
 cmd/currencies/currencies.go | 13 +++++++++++--
 cmd/export/beancount.go      |  9 ++++++++-
 cmd/export/export.go         |  2 ++
 cmd/reports/beancount.go     |  9 ++++++++-
 cmd/reports/report.go        |  2 ++
 cmd/utils/cli_config.go      |  8 ++++----
 script/convert.go            | 13 +++++++++++--
 8 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/book/book_reclassify.go b/book/book_reclassify.go
index afc68ee..c06b031 100644
--- a/book/book_reclassify.go
+++ b/book/book_reclassify.go
@@ -52,7 +52,7 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		max := 0
 		macct := ""
 		for cacct, k := range caccts {
-			if k > max {
+			if k > max || (k == max && cacct < macct) {
 				k = max
 				macct = cacct
 			}
@@ -76,11 +76,13 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		}
 
 		max_match := 0.0
+		max_payee := ""
 		max_cacct := ""
 		for p, c := range payee_mapping {
 			d := dist(trans.GetPayee(), p)
-			if d > max_match {
+			if d > max_match || (d == max_match && p < max_payee) {
 				max_match = d
+				max_payee = p
 				max_cacct = c
 			}
 		}
diff --git a/cmd/currencies/currencies.go b/cmd/currencies/currencies.go
index 7989639..1e999cf 100644
--- a/cmd/currencies/currencies.go
+++ b/cmd/currencies/currencies.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/spf13/cobra"
+	"sort"
 )
 
 func Add(root *cobra.Command, app *app.App) {
@@ -20,8 +21,16 @@ func Add(root *cobra.Command, app *app.App) {
 			return err
 		}
 
-		for ccy, dec := range b.GetCCYDecimals() {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, dec)
+		decs := b.GetCCYDecimals()
+		ccys := make([]string, 0, len(decs))
+		for ccy := range decs {
+			ccys = append(ccys, ccy)
+		}
+		sort.Strings(ccys)
+		for _, ccy := range ccys {
+			if _, err := fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy]); err != nil {
+				return err
+			}
 		}
 
 		return nil
diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index e5aa0f0..7f9c661 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -58,7 +59,13 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 	}
 
 	// Account open close
-	for acct, stats := range lstats {
+	accts := make([]string, 0, len(lstats))
+	for acct := range lstats {
+		accts = append(accts, acct)
+	}
+	sort.Strings(accts)
+	for _, acct := range accts {
+		stats := lstats[acct]
 		b.Printf("%s open %s\n", stats.first, acct)
 		isZero := true
 		for _, bal := range stats.balance {
diff --git a/cmd/export/export.go b/cmd/export/export.go
index 350531c..ec4e55e 100644
--- a/cmd/export/export.go
+++ b/cmd/export/export.go
@@ -5,6 +5,7 @@ import (
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/cmd/utils"
 	"github.com/spf13/cobra"
+	"sort"
 )
 
 type ExportReport struct {
@@ -36,6 +37,7 @@ func Add(cmd *cobra.Command, app *app.App, export *ExportReport) {
 	for k, _ := range app.Macros {
 		macroNames = append(macroNames, k)
 	}
+	sort.Strings(macroNames)
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
 		return export.run(app, cmd, args)
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index 3a81e4f..3dd52bb 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -50,7 +51,13 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 	}
 
-	for acct, stats := range lstats {
+	accts := make([]string, 0, len(lstats))
+	for acct := range lstats {
+		accts = append(accts, acct)
+	}
+	sort.Strings(accts)
+	for _, acct := range accts {
+		stats := lstats[acct]
 		b.Printf("%s open %s\n", stats.first, acct)
 		isZero := true
 		for _, bal := range stats.balance {
diff --git a/cmd/reports/report.go b/cmd/reports/report.go
index bde4d19..3c37627 100644
--- a/cmd/reports/report.go
+++ b/cmd/reports/report.go
@@ -8,6 +8,7 @@ import (
 	"github.com/spf13/cobra"
 	"math/big"
 	"regexp"
+	"sort"
 )
 
 type TransactionReport struct {
@@ -86,6 +87,7 @@ func Add(cmd *cobra.Command, app *app.App, report *TransactionReport) {
 	for k, _ := range app.Macros {
 		macroNames = append(macroNames, k)
 	}
+	sort.Strings(macroNames)
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
 		return report.run(app, cmd, args)
diff --git a/cmd/utils/cli_config.go b/cmd/utils/cli_config.go
index e134969..a55327a 100644
--- a/cmd/utils/cli_config.go
+++ b/cmd/utils/cli_config.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -86,12 +87,11 @@ func (e *CLIConfig) String() string {
 		return e.ConfigType
 	}
 
-	keyv := make([]string, len(e.Params))
-	i := 0
+	keyv := make([]string, 0, len(e.Params))
 	for k, v := range e.Params {
-		keyv[i] = k + "=" + v
-		i++
+		keyv = append(keyv, k+"="+v)
 	}
+	sort.Strings(keyv)
 
 	return e.ConfigType + ":" + strings.Join(keyv, ",")
 }
diff --git a/script/convert.go b/script/convert.go
index 39f569d..0723b18 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -7,6 +7,7 @@ import (
 	"go.starlark.net/starlark"
 	"io"
 	"math/big"
+	"sort"
 )
 
 type StarlarkReader func(r io.Reader) (starlark.Value, error)
@@ -35,7 +36,13 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 		return starlark.NewList(newarr), nil
 	case map[string]interface{}:
 		newdict := starlark.NewDict(len(v))
-		for k, nv := range v {
+		keys := make([]string, 0, len(v))
+		for k := range v {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+		for _, k := range keys {
+			nv := v[k]
 			sv, err := jsonToStarlark(nv)
 			if err != nil {
 				return nil, err
@@ -104,7 +111,9 @@ func GetReadCSV(delim string, header bool) StarlarkReader {
 				}
 				ndict := starlark.NewDict(len(rec))
 				for j, v := range rec {
-					ndict.SetKey(starlark.String(hdr[j]), starlark.String(v))
+					if err := ndict.SetKey(starlark.String(hdr[j]), starlark.String(v)); err != nil {
+						return nil, fmt.Errorf("csv row: %w", err)
+					}
 				}
 				nrecs[i] = ndict
 			} else {
-- 
2.43.0


From 9ca584bda43a1decdd681cfa37ad59ee812e034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 16/48] fix: tell a NUL character or a read error in a ledger
 from the end of the file

Everything after a NUL was silently ignored. Files that cannot be opened or read
are now reported as an error like any other instead of exiting in the loader.
---
 loader/lexer.go  | 6 +++---
 loader/parser.go | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 9348205..8a65eed 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"io"
-	"log"
 	"math/big"
 	"unicode"
 )
@@ -18,7 +17,8 @@ type basicReader struct {
 	col    int
 }
 
-const eof = rune(0)
+// End of file -- not a rune that can be read from a file
+const eof = rune(-1)
 const eol = rune('\n')
 
 func newRuneReader(r *bufio.Reader) *basicReader {
@@ -110,7 +110,7 @@ func (rr *basicReader) next() rune {
 	if err == io.EOF {
 		r = eof
 	} else if err != nil {
-		log.Fatal(err)
+		rr.stop("read error: %v", err)
 	}
 	rr.ch = r
 	if rr.ch == eol {
diff --git a/loader/parser.go b/loader/parser.go
index 37158bb..8bbe253 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/mescanne/goledger/book"
-	"log"
 	"math/big"
 	"os"
 	"path/filepath"
@@ -203,7 +202,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 
 	file, err := os.Open(filename)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 	defer file.Close()
 
-- 
2.43.0


From e1ccb8939ac0138523603dec66331075fb08cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 17/48] fix: parse amounts of any size exactly

Amounts and prices with more than 18 digits overflowed an int64 silently.
---
 loader/lexer.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 8a65eed..b6bd2bf 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -146,14 +146,15 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	isDec := false
-	var num int64 = 0
-	var mag int64 = 1
+	num := big.NewInt(0)
+	mag := big.NewInt(1)
+	ten := big.NewInt(10)
 	for {
 		if rr.ch >= '0' && rr.ch <= '9' {
-			num *= 10
-			num += int64(rr.ch - '0')
+			num.Mul(num, ten)
+			num.Add(num, big.NewInt(int64(rr.ch-'0')))
 			if isDec {
-				mag *= 10
+				mag.Mul(mag, ten)
 			}
 			rr.next()
 			continue
@@ -172,8 +173,8 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	if isNeg {
-		num *= -1
+		num.Neg(num)
 	}
 
-	return big.NewRat(num, mag)
+	return new(big.Rat).SetFrac(num, mag)
 }
-- 
2.43.0


From 351fc04779f52769a3dfdc63146065b7b97f3de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 18/48] fix: reject a posting amount that has no currency

It was silently replaced by whatever balances the transaction.
---
 loader/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/loader/parser.go b/loader/parser.go
index 8bbe253..7d3df44 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -322,7 +322,9 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 	}
 
 	if ccy == "" {
-		// ASSERT: dec should be 0
+		if dec.Sign() != 0 {
+			rr.stop("expected currency for amount %s", dec.RatString())
+		}
 		var ZERO big.Int
 		for ccy, dec := range loader.GetLastCCYBals() {
 			if dec.Num().Cmp(&ZERO) != 0 {
-- 
2.43.0


From 794af6d9aeab4b048d3ce8e55278541b36b5374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 19/48] fix: reject dates that are not in the calendar

Month 99 crashed reports with an index out of range, and the register ignored
a begin or end date that it could not parse.
---
 book/date.go             | 22 ++++++++++++++++++++++
 book/registry.go         | 12 ++++++++++--
 cmd/register/register.go |  8 ++++++--
 loader/lexer.go          |  3 +++
 4 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/book/date.go b/book/date.go
index 51c76e4..ea46988 100644
--- a/book/date.go
+++ b/book/date.go
@@ -89,7 +89,29 @@ func (date *Date) Type() string {
 	return "date"
 }
 
+// IsValid returns true if this is a date of the calendar
+func (date Date) IsValid() bool {
+	year, month, day := int(date/10000), int(date/100)%100, int(date%100)
+	if year < 1 || month < 1 || month > 12 || day < 1 {
+		return false
+	}
+	days := monthDays[month-1]
+	if month == 2 && YearIsLeapYear(year-1) {
+		days++
+	}
+	return day <= days
+}
+
+// DateFromString returns the date that the string describes or
+// zero if it isn't a valid date.
 func DateFromString(date string) Date {
+	if d := parseDate(date); d.IsValid() {
+		return d
+	}
+	return 0
+}
+
+func parseDate(date string) Date {
 	mat := dateYYYYMMDD.FindStringSubmatch(date)
 	if mat != nil {
 		year, _ := strconv.Atoi(mat[1])
diff --git a/book/registry.go b/book/registry.go
index 8b8f028..0841c99 100644
--- a/book/registry.go
+++ b/book/registry.go
@@ -2,6 +2,7 @@ package book
 
 import (
 	"encoding/json"
+	"fmt"
 	"math/big"
 	"regexp"
 	"strings"
@@ -28,11 +29,17 @@ type RegistryEntry struct {
 	BaseBalance *big.Rat  // Total balance to date across all CCYs converted to BaseCCY (recalculated each time)
 }
 
-func (rep *RegistryReport) FilterByDate(mindate, maxdate string) {
+func (rep *RegistryReport) FilterByDate(mindate, maxdate string) error {
 	min := DateFromString(mindate)
+	if min == 0 && mindate != "" {
+		return fmt.Errorf("invalid date '%s'", mindate)
+	}
 	max := DateFromString(maxdate)
+	if max == 0 && maxdate != "" {
+		return fmt.Errorf("invalid date '%s'", maxdate)
+	}
 	if min == 0 && max == 0 {
-		return
+		return nil
 	}
 
 	startIdx := -1
@@ -52,6 +59,7 @@ func (rep *RegistryReport) FilterByDate(mindate, maxdate string) {
 	} else {
 		*rep = (*rep)[startIdx:endIdx]
 	}
+	return nil
 }
 
 func (b *Book) ExtractRegister(baseccy string, re *regexp.Regexp, split bool) RegistryReport {
diff --git a/cmd/register/register.go b/cmd/register/register.go
index 12d3f61..5e854b3 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -100,7 +100,9 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 			return fmt.Errorf("invalid regex: '%s': %w", arg, err)
 		}
 		rep = b.ExtractRegister(rapp.BaseCCY, re, reg.Split)
-		rep.FilterByDate(reg.BeginDate, reg.EndDate)
+		if err := rep.FilterByDate(reg.BeginDate, reg.EndDate); err != nil {
+			return err
+		}
 		return ShowReport(bp, rep, reg.Type, reg.Count, reg.Asc, true, true)
 	}
 
@@ -115,7 +117,9 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 			return fmt.Errorf("failed compiling re for account '%s': %w", acct, err)
 		}
 		rep = b.ExtractRegister(rapp.BaseCCY, acctRe, reg.Split)
-		rep.FilterByDate(reg.BeginDate, reg.EndDate)
+		if err := rep.FilterByDate(reg.BeginDate, reg.EndDate); err != nil {
+			return err
+		}
 		if err := ShowReport(bp, rep, reg.Type, reg.Count, reg.Asc, false, true); err != nil {
 			return fmt.Errorf("error writing report '%s': %w", acct, err)
 		}
diff --git a/loader/lexer.go b/loader/lexer.go
index b6bd2bf..4b33e7f 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -75,6 +75,9 @@ func (rr *basicReader) parseDate() book.Date {
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
 	rr.consume('/')
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
+	if !book.Date(date).IsValid() {
+		rr.stop("invalid date %s", book.Date(date))
+	}
 	return book.Date(date)
 }
 
-- 
2.43.0


From be0a76afb3e78c05d371aba011f9ed47b7647d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 20/48] fix: report an unbalanced last transaction as an error

The last transaction is only checked when the book is built, outside of the
loader's recover, so goledger crashed.
---
 book/builder.go          | 35 +++++++++++++++++++++++++++++------
 cmd/app/app.go           |  3 +--
 cmd/generate/starlark.go |  2 +-
 cmd/importer/starlark.go |  2 +-
 4 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index 669ad16..ba10a99 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -3,6 +3,8 @@ package book
 import (
 	"fmt"
 	"math/big"
+	"sort"
+	"strings"
 )
 
 type Builder struct {
@@ -15,6 +17,15 @@ type Builder struct {
 	prices    *priceBookBuilder
 }
 
+// BuildBook builds the book or returns an error if the last transaction doesn't balance.
+func (b *Builder) BuildBook() (*Book, error) {
+	if err := b.checkTransaction(); err != nil {
+		return nil, err
+	}
+	return b.Build(), nil
+}
+
+// Build builds the book. It panics if the last transaction doesn't balance.
 func (b *Builder) Build() *Book {
 	b.checkAndClearTransaction()
 
@@ -76,15 +87,27 @@ func NewBookBuilder() *Builder {
 	}
 }
 
-func (b *Builder) checkAndClearTransaction() {
-	var Zero big.Int
+func (b *Builder) checkTransaction() error {
+	ccys := make([]string, 0, len(b.currAmts))
 	for ccy, amt := range b.currAmts {
-		if amt.Num().Cmp(&Zero) != 0 {
-			panic(fmt.Sprintf("In transaction (%d %s) ccy %s has balance of %s!", b.currDate, b.currPayee, ccy, amt))
-		} else {
-			b.currAmts[ccy].SetInt64(0)
+		if amt.Sign() != 0 {
+			ccys = append(ccys, fmt.Sprintf("ccy %s has balance of %s", ccy, amt))
 		}
 	}
+	if len(ccys) > 0 {
+		sort.Strings(ccys)
+		return fmt.Errorf("In transaction (%d %s) %s!", b.currDate, b.currPayee, strings.Join(ccys, ", "))
+	}
+	return nil
+}
+
+func (b *Builder) checkAndClearTransaction() {
+	if err := b.checkTransaction(); err != nil {
+		panic(err.Error())
+	}
+	for _, amt := range b.currAmts {
+		amt.SetInt64(0)
+	}
 }
 
 func (b *Builder) NewTransaction(date Date, payee string, note string) {
diff --git a/cmd/app/app.go b/cmd/app/app.go
index 48e2138..d0cf281 100644
--- a/cmd/app/app.go
+++ b/cmd/app/app.go
@@ -61,8 +61,7 @@ func (app *App) LoadBook() (*book.Book, error) {
 	if err := loader.ParseFile(bbuilder, app.Ledger); err != nil {
 		return nil, err
 	}
-	b := bbuilder.Build()
-	return b, nil
+	return bbuilder.BuildBook()
 }
 
 const version = "0.1"
diff --git a/cmd/generate/starlark.go b/cmd/generate/starlark.go
index 76813dd..0334145 100644
--- a/cmd/generate/starlark.go
+++ b/cmd/generate/starlark.go
@@ -20,5 +20,5 @@ func (gen *Generate) generate(b *book.Book, sc string) (*book.Book, error) {
 	if err != nil {
 		return nil, err
 	}
-	return bbuilder.Build(), nil
+	return bbuilder.BuildBook()
 }
diff --git a/cmd/importer/starlark.go b/cmd/importer/starlark.go
index ba555d7..4090248 100644
--- a/cmd/importer/starlark.go
+++ b/cmd/importer/starlark.go
@@ -26,5 +26,5 @@ func (imp *ImportDef) processData(idata starlark.Value, file string, sc string)
 	}
 
 	// Build the book -- done!
-	return bbuilder.Build(), nil
+	return bbuilder.BuildBook()
 }
-- 
2.43.0


From cda16d597948a48a770b5506493657b3d0764ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 21/48] fix: stop at ledgers and macros that include themselves

Both recursed until the process crashed.
---
 cmd/app/book_op.go | 12 +++++++++---
 loader/parser.go   | 23 +++++++++++++++++++----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 4c67c65..3d209b5 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -87,7 +87,7 @@ var deprec_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9\\.]+)/$")
 
 func (app *App) BookOps(b *book.Book, ops ...string) error {
 	for _, op := range ops {
-		if err := app.bookOp(b, op); err != nil {
+		if err := app.bookOp(b, op, nil); err != nil {
 			return fmt.Errorf("error applying operation '%s': %w", op, err)
 		}
 	}
@@ -95,13 +95,19 @@ func (app *App) BookOps(b *book.Book, ops ...string) error {
 	return nil
 }
 
-func (app *App) bookOp(b *book.Book, op string) error {
+func (app *App) bookOp(b *book.Book, op string, parents []string) error {
 	var err error
 
 	m, ok := app.Macros[op]
 	if ok {
+		for _, parent := range parents {
+			if parent == op {
+				return fmt.Errorf("macro '%s' includes itself", op)
+			}
+		}
+		parents = append(parents[:len(parents):len(parents)], op)
 		for _, macro := range m {
-			err = app.bookOp(b, macro)
+			err = app.bookOp(b, macro, parents)
 			if err != nil {
 				return fmt.Errorf("macro expansion '%s': %v", op, err)
 			}
diff --git a/loader/parser.go b/loader/parser.go
index 7d3df44..68c577c 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -194,12 +194,24 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 //
 // reterr returns the parsing error or nil if everything loaded.
 func ParseFile(loader TransactionLoader, filename string) (reterr error) {
-	return parseFileLocal(loader, filename, nil)
+	return parseFileLocal(loader, filename, nil, nil)
 }
 
-func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string) (reterr error) {
+func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string, parents []string) (reterr error) {
 	reterr = nil
 
+	// Files that include this one must not be included again
+	path, err := filepath.Abs(filename)
+	if err != nil {
+		return err
+	}
+	for _, parent := range parents {
+		if parent == path {
+			return fmt.Errorf("parsing failure: %s: file includes itself", filename)
+		}
+	}
+	parents = append(parents[:len(parents):len(parents)], path)
+
 	file, err := os.Open(filename)
 	if err != nil {
 		return err
@@ -258,10 +270,13 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 			// If it's include
 			if command == "INCLUDE" {
 				ifile := rr.parseToEOL()
-				if ifile[0] == '"' && ifile[len(ifile)-1] == '"' {
+				if ifile == "" {
+					rr.stop("expected file for include")
+				}
+				if len(ifile) > 1 && ifile[0] == '"' && ifile[len(ifile)-1] == '"' {
 					ifile = ifile[1 : len(ifile)-1]
 				}
-				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap)
+				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap, parents)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From da674f812f055b87f681795a4f58991bbeea59b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 22/48] fix: reject missing, infinite and zero-denominator
 amounts in add()

They crashed the import, and a second amount without an account (or the other
way around) fell into an empty error branch.
---
 script/convert.go  |  8 +++-----
 script/starlark.go | 29 ++++++++++++++++++-----------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/script/convert.go b/script/convert.go
index 0723b18..7e6e960 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -130,14 +130,12 @@ func GetReadCSV(delim string, header bool) StarlarkReader {
 }
 
 func GetBigRat(amount starlark.Value) (*big.Rat, error) {
-	if amount == starlark.None {
-		return nil, nil
-	}
-
 	var amt *big.Rat = &big.Rat{}
 	switch v := amount.(type) {
 	case starlark.Float:
-		amt.SetFloat64(float64(v))
+		if amt.SetFloat64(float64(v)) == nil {
+			return nil, fmt.Errorf("invalid amount '%s'", v.String())
+		}
 	case starlark.Int:
 		amt.SetInt(v.BigInt())
 	case starlark.String:
diff --git a/script/starlark.go b/script/starlark.go
index 86ae09a..6654a25 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -73,31 +73,38 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 		}
 
 		// Divide by denominator if set
+		if denom == 0 || denom2 == 0 {
+			return nil, fmt.Errorf("invalid denominator 0")
+		}
 		amt.Mul(amt, big.NewRat(1, int64(denom)))
 
+		// Second amount and account belong together
+		if (amount2 == starlark.None) != (account2 == "") {
+			return nil, fmt.Errorf("amt2 and account2 must be specified together")
+		}
+
 		// Set the negative of the amount
 		neg := (&big.Rat{}).Neg(amt)
 
+		// Convert the amount2
+		var amt2 *big.Rat
+		if amount2 != starlark.None {
+			amt2, err = GetBigRat(amount2)
+			if err != nil {
+				return nil, err
+			}
+		}
+
 		// Make the transaction
 		bbuilder.NewTransaction(ndate, string(desc), note)
 		bbuilder.AddPosting(account, ccy, amt, lnote)
 		bbuilder.AddPosting(caccount, ccy, neg, "")
 
 		// Nothing else to do
-		if amount2 == starlark.None && account2 == "" {
+		if amount2 == starlark.None {
 			return starlark.None, nil
 		}
 
-		if amount2 == starlark.None || account2 == "" || ccy2 == ccy {
-			// Error
-		}
-
-		// Convert the amount2
-		amt2, err := GetBigRat(amount2)
-		if err != nil {
-			return nil, err
-		}
-
 		// Divide by denominator if set
 		amt2.Mul(amt2, big.NewRat(1, int64(denom2)))
 
-- 
2.43.0


From 7e485ee712ab36006efb7cff15f5b006c373c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 23/48] fix: read imported amounts as the decimals they were
 written as

JSON and Starlark numbers are floats, so 0.1 became 3602879701896397/2^55. An
amount without a currency is an error, as in a ledger file; it crashed the output.
---
 script/convert.go  | 4 +++-
 script/starlark.go | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 7e6e960..34b6374 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"math/big"
 	"sort"
+	"strconv"
 )
 
 type StarlarkReader func(r io.Reader) (starlark.Value, error)
@@ -133,7 +134,8 @@ func GetBigRat(amount starlark.Value) (*big.Rat, error) {
 	var amt *big.Rat = &big.Rat{}
 	switch v := amount.(type) {
 	case starlark.Float:
-		if amt.SetFloat64(float64(v)) == nil {
+		// The shortest decimal that reads as this number
+		if _, ok := amt.SetString(strconv.FormatFloat(float64(v), 'g', -1, 64)); !ok {
 			return nil, fmt.Errorf("invalid amount '%s'", v.String())
 		}
 	case starlark.Int:
diff --git a/script/starlark.go b/script/starlark.go
index 6654a25..749089d 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -95,6 +95,11 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 			}
 		}
 
+		// Postings need a currency
+		if ccy == "" || (amount2 != starlark.None && ccy2 == "") {
+			return nil, fmt.Errorf("missing currency")
+		}
+
 		// Make the transaction
 		bbuilder.NewTransaction(ndate, string(desc), note)
 		bbuilder.AddPosting(account, ccy, amt, lnote)
-- 
2.43.0


From 6f0642a5335627460adae522981a27edba9745e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 24/48] fix: write exact amounts in ledger, beancount and CSV
 output

They were rounded to the decimals of the currency, prices included (0.7934 USD
became 0.8), and formatted for the locale: with LANG=de the ledger could not be
read back.
---
 cmd/app/ledger.go             | 41 +++++++++++++++++++++++++++++++++++
 cmd/export/beancount.go       |  4 ++--
 cmd/export/csv.go             |  4 +---
 cmd/export/ledger.go          |  4 ++--
 cmd/register/show_register.go |  6 ++---
 cmd/reports/beancount.go      |  2 +-
 cmd/reports/ledger.go         |  2 +-
 7 files changed, 50 insertions(+), 13 deletions(-)
 create mode 100644 cmd/app/ledger.go

diff --git a/cmd/app/ledger.go b/cmd/app/ledger.go
new file mode 100644
index 0000000..3ef0e25
--- /dev/null
+++ b/cmd/app/ledger.go
@@ -0,0 +1,41 @@
+package app
+
+import (
+	"github.com/mescanne/goledger/book"
+	"math/big"
+	"strings"
+)
+
+var ledgerLine = strings.NewReplacer("\r\n", " ", "\n", " ", "\r", " ")
+
+// LedgerPayee formats a payee so that it is read back from a ledger file as it is.
+//
+// Quoted payees cannot contain a double quote, so it is replaced with a single one there.
+func LedgerPayee(payee string) string {
+	payee = ledgerLine.Replace(payee)
+	if strings.Contains(payee, ";") || strings.HasPrefix(payee, "*") || strings.HasPrefix(payee, "\"") {
+		payee = "\"" + strings.ReplaceAll(payee, "\"", "'") + "\""
+	}
+	return payee
+}
+
+// LedgerNote formats a note as the comment that ends a line (or nothing if it's empty).
+func LedgerNote(note string) string {
+	if note == "" {
+		return ""
+	}
+	return "  ; " + ledgerLine.Replace(note)
+}
+
+// FormatExact formats the number for other programs to read: in no particular locale,
+// and without rounding if it has a finite number of decimals.
+func (b *BookPrinter) FormatExact(symbol string, amount *big.Rat) string {
+	dec, ok := b.decs[symbol]
+	if !ok {
+		dec = 2
+	}
+	if n, exact := book.GetDecimals(amount); exact && n > dec {
+		dec = n
+	}
+	return amount.FloatString(dec)
+}
diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index 7f9c661..904ce14 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -94,7 +94,7 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 				pnote = "  ; " + pnote
 			}
 			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
+			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)
 		}
 		b.Printf("\n")
 	}
@@ -106,7 +106,7 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		unit := FormatCurrency(pair.Unit)
 		ccy := FormatCurrency(pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s %s\n", p.GetDate(), unit, b.FormatNumber(pair.CCY, p.GetPrice()), ccy)
+			b.Printf("P %s 00:00:00 %s %s %s\n", p.GetDate(), unit, b.FormatExact(pair.CCY, p.GetPrice()), ccy)
 		}
 	}
 
diff --git a/cmd/export/csv.go b/cmd/export/csv.go
index dfc28ba..0496af9 100644
--- a/cmd/export/csv.go
+++ b/cmd/export/csv.go
@@ -4,7 +4,6 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"encoding/csv"
-	"fmt"
 )
 
 func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
@@ -25,14 +24,13 @@ func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
 	// Postings
 	for _, posts := range bk.Transactions() {
 		for _, p := range posts {
-        		f, _ := p.GetAmount().Float64()
 			csvwrite.Write([]string{
 				posts.GetDate().String(),
 				posts.GetPayee(),
 				posts.GetTransactionNote(),
 				p.GetAccount(),
 				p.GetCCY(),
-				fmt.Sprintf("%f", f),
+				b.FormatExact(p.GetCCY(), p.GetAmount()),
 				p.GetPostNote(),
 			})
 		}
diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index e6429a3..1081b46 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -36,7 +36,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 
 			ccy := LedgerFormatCurrency(p.GetCCY())
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatExact(p.GetCCY(), p.GetAmount()), pnote)
 		}
 		b.Printf("\n")
 	}
@@ -45,7 +45,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 	for _, pair := range bk.GetPricePairs() {
 		pl := bk.GetPriceList(pair.Unit, pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), pair.Unit, b.FormatSymbol(pair.CCY), b.FormatNumber(pair.CCY, p.GetPrice()))
+			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), pair.Unit, b.FormatSymbol(pair.CCY), b.FormatExact(pair.CCY, p.GetPrice()))
 		}
 	}
 
diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index f7e338f..072cd1c 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -122,16 +122,14 @@ func ShowCSV(b *app.BookPrinter, report book.RegistryReport) error {
 
 	// Print out content
 	for _, p := range report {
-		amt, _ := p.Amount.Float64()
-		bal, _ := p.Balance.Float64()
 		rows = append(rows, []string{
 			p.Date.String(),
 			p.Payee,
 			p.Account,
 			p.CounterAccount,
 			p.CCY,
-			fmt.Sprintf("%f", amt),
-			fmt.Sprintf("%f", bal),
+			b.FormatExact(p.CCY, p.Amount),
+			b.FormatExact(p.CCY, p.Balance),
 		})
 	}
 
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index 3dd52bb..2c508c7 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -93,7 +93,7 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 				pnote = "  ; " + pnote
 			}
 			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
+			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)
 		}
 		b.Printf("\n")
 	}
diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index 07d497a..bf5eef1 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -30,7 +30,7 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 				ccy = "\"" + ccy + "\""
 			}
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatExact(p.GetCCY(), p.GetAmount()), pnote)
 		}
 		b.Printf("\n")
 	}
-- 
2.43.0


From 8068bc76793594c64299c2e34a4d7bbc8f7ad2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 25/48] fix: quote and escape text in ledger and beancount
 output

A payee with a semicolon, or starting with a star, lost part of its name when
read back; line breaks and quotes in imported text produced broken files; prices
of currencies that need quotes could not be read back.
---
 cmd/app/print.go         |  2 +-
 cmd/export/beancount.go  | 15 ++++++---------
 cmd/export/ledger.go     | 14 ++++----------
 cmd/reports/beancount.go | 15 ++++++---------
 cmd/reports/ledger.go    | 12 +++---------
 5 files changed, 20 insertions(+), 38 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 0c5feac..76d5a76 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -269,7 +269,7 @@ func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
 
 // Formal the symbol (CCY) for printing
 func (b *BookPrinter) FormatSymbol(symbol string) string {
-	if sym := []rune(symbol); unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"' {
+	if sym := []rune(symbol); len(sym) > 0 && (unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"') {
 		return symbol + " "
 	}
 	return symbol
diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index 904ce14..475fe1b 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -8,6 +8,9 @@ import (
 	"strings"
 )
 
+// Escapes a quoted string
+var beancountString = strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", " ", "\r", " ")
+
 func FormatCurrency(ccy string) string {
 	ccy = strings.ReplaceAll(ccy, " ", "")
 	ccy = strings.ToUpper(ccy)
@@ -81,18 +84,12 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 	// Transactions
 	b.Printf("\n; Transactions\n")
 	for _, posts := range trans {
-		tnote := posts.GetTransactionNote()
-		if tnote != "" {
-			tnote = "  ; " + tnote
-		}
+		tnote := app.LedgerNote(posts.GetTransactionNote())
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), beancountString.Replace(posts.GetPayee()), tnote)
 		for _, p := range posts {
-			pnote := p.GetPostNote()
-			if pnote != "" {
-				pnote = "  ; " + pnote
-			}
+			pnote := app.LedgerNote(p.GetPostNote())
 			ccy := FormatCurrency(p.GetCCY())
 			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)
 		}
diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index 1081b46..e93cdc8 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -23,16 +23,10 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 	trans := bk.Transactions()
 
 	for _, posts := range trans {
-		tnote := posts.GetTransactionNote()
-		if tnote != "" {
-			tnote = "  ; " + tnote
-		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		tnote := app.LedgerNote(posts.GetTransactionNote())
+		b.Printf("%s %s%s\n", posts.GetDate(), app.LedgerPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
-			pnote := p.GetPostNote()
-			if pnote != "" {
-				pnote = "  ; " + pnote
-			}
+			pnote := app.LedgerNote(p.GetPostNote())
 
 			ccy := LedgerFormatCurrency(p.GetCCY())
 
@@ -45,7 +39,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 	for _, pair := range bk.GetPricePairs() {
 		pl := bk.GetPriceList(pair.Unit, pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), pair.Unit, b.FormatSymbol(pair.CCY), b.FormatExact(pair.CCY, p.GetPrice()))
+			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), LedgerFormatCurrency(pair.Unit), b.FormatSymbol(LedgerFormatCurrency(pair.CCY)), b.FormatExact(pair.CCY, p.GetPrice()))
 		}
 	}
 
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index 2c508c7..347b9ac 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -8,6 +8,9 @@ import (
 	"strings"
 )
 
+// Escapes a quoted string
+var beancountString = strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", " ", "\r", " ")
+
 func FormatCurrency(ccy string) string {
 	ccy = strings.ReplaceAll(ccy, " ", "")
 	ccy = strings.ToUpper(ccy)
@@ -80,18 +83,12 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 
 	// Transactions
 	for _, posts := range trans {
-		tnote := posts.GetTransactionNote()
-		if tnote != "" {
-			tnote = "  ; " + tnote
-		}
+		tnote := app.LedgerNote(posts.GetTransactionNote())
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), beancountString.Replace(posts.GetPayee()), tnote)
 		for _, p := range posts {
-			pnote := p.GetPostNote()
-			if pnote != "" {
-				pnote = "  ; " + pnote
-			}
+			pnote := app.LedgerNote(p.GetPostNote())
 			ccy := FormatCurrency(p.GetCCY())
 			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)
 		}
diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index bf5eef1..307bbb2 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -8,16 +8,10 @@ import (
 
 func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 	for _, posts := range trans {
-		tnote := posts.GetTransactionNote()
-		if tnote != "" {
-			tnote = "  ; " + tnote
-		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		tnote := app.LedgerNote(posts.GetTransactionNote())
+		b.Printf("%s %s%s\n", posts.GetDate(), app.LedgerPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
-			pnote := p.GetPostNote()
-			if pnote != "" {
-				pnote = "  ; " + pnote
-			}
+			pnote := app.LedgerNote(p.GetPostNote())
 
 			ccy := p.GetCCY()
 			needsQuotes := false
-- 
2.43.0


From a7624b3f43c7c800f834e76af6f225e7ea3e10e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 26/48] fix: report errors writing the output

A full disk went unnoticed: goledger exited with success after writing part of
a report or export.
---
 cmd/accounts/accounts.go      |  2 +-
 cmd/app/print.go              | 33 ++++++++++++++++++++++++++-------
 cmd/export/beancount.go       |  2 +-
 cmd/export/csv.go             | 11 ++++++++---
 cmd/export/ledger.go          |  2 +-
 cmd/register/show_register.go |  2 +-
 cmd/reports/beancount.go      |  2 +-
 cmd/reports/html.go           |  2 +-
 cmd/reports/ledger.go         |  2 +-
 cmd/reports/text.go           |  2 +-
 10 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/cmd/accounts/accounts.go b/cmd/accounts/accounts.go
index 2b07e3a..25cff81 100644
--- a/cmd/accounts/accounts.go
+++ b/cmd/accounts/accounts.go
@@ -48,7 +48,7 @@ func Add(cmd *cobra.Command, app *rapp.App) {
 			bp.PrintColumns(rows, []bool{false})
 		}
 
-		return nil
+		return bp.Err()
 	}
 
 	cmd.AddCommand(ncmd)
diff --git a/cmd/app/print.go b/cmd/app/print.go
index 76d5a76..0797386 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -3,6 +3,7 @@ package app
 import (
 	"encoding/csv"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"golang.org/x/term"
 	"golang.org/x/text/language"
@@ -12,6 +13,7 @@ import (
 	"math/big"
 	"os"
 	"strings"
+	"syscall"
 	"unicode"
 	"unicode/utf8"
 )
@@ -42,6 +44,7 @@ type BookPrinter struct {
 	pr     *message.Printer
 	decs   map[string]int
 	colour bool
+	err    error // First error writing
 }
 
 // Create a new BookPrinter for a specified io.Writer and
@@ -74,13 +77,29 @@ func (b *BookPrinter) Width() (int, int) {
 }
 
 func (b *BookPrinter) Write(p []byte) (int, error) {
-	return b.w.Write(p)
+	n, err := b.w.Write(p)
+	b.record(err)
+	return n, err
+}
+
+func (b *BookPrinter) record(err error) {
+	if b.err == nil {
+		b.err = err
+	}
+}
+
+// Err returns the first error there was writing. Leaving the pager early isn't one.
+func (b *BookPrinter) Err() error {
+	if errors.Is(b.err, syscall.EPIPE) {
+		return nil
+	}
+	return b.err
 }
 
 // Normal Printf() but to specified io.Writer and formatting
 // numbers in a locale-specific way
 func (b *BookPrinter) Printf(format string, a ...interface{}) (n int, err error) {
-	return b.pr.Fprintf(b.w, format, a...)
+	return b.pr.Fprintf(b, format, a...)
 }
 
 // Normal Sprintf() but formatting numbers in a locale-specific way
@@ -120,7 +139,7 @@ func (b *BookPrinter) PrintCSV(rows [][]string) error {
 
 	csvwrite.Flush()
 
-	return nil
+	return csvwrite.Error()
 }
 
 type ColumnValue interface {
@@ -242,15 +261,15 @@ func (b *BookPrinter) PrintColumns(rows [][]ColumnValue, shrinkToTerm []bool) {
 	// Write out columns
 	for i := 0; i < len(rows); i++ {
 		if rows[i] == nil {
-			b.w.Write([]byte("\n"))
+			b.Write([]byte("\n"))
 			continue
 		}
 		for j := 0; j < len(colWidths); j++ {
-			b.w.Write([]byte(rows[i][j].Pad(colWidths[j])))
+			b.Write([]byte(rows[i][j].Pad(colWidths[j])))
 			if j < (len(colWidths) - 1) {
-				b.w.Write([]byte(" "))
+				b.Write([]byte(" "))
 			} else {
-				b.w.Write([]byte("\n"))
+				b.Write([]byte("\n"))
 			}
 		}
 	}
diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index 475fe1b..84e7667 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -107,5 +107,5 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		}
 	}
 
-	return nil
+	return b.Err()
 }
diff --git a/cmd/export/csv.go b/cmd/export/csv.go
index 0496af9..643da65 100644
--- a/cmd/export/csv.go
+++ b/cmd/export/csv.go
@@ -19,12 +19,14 @@ func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
 		"amount",
 		"post_note",
 	}
-	csvwrite.Write(hdrs)
+	if err := csvwrite.Write(hdrs); err != nil {
+		return err
+	}
 
 	// Postings
 	for _, posts := range bk.Transactions() {
 		for _, p := range posts {
-			csvwrite.Write([]string{
+			err := csvwrite.Write([]string{
 				posts.GetDate().String(),
 				posts.GetPayee(),
 				posts.GetTransactionNote(),
@@ -33,10 +35,13 @@ func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
 				b.FormatExact(p.GetCCY(), p.GetAmount()),
 				p.GetPostNote(),
 			})
+			if err != nil {
+				return err
+			}
 		}
 	}
 
 	csvwrite.Flush()
 
-	return nil
+	return csvwrite.Error()
 }
diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index e93cdc8..6ea4ab1 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -43,5 +43,5 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 		}
 	}
 
-	return nil
+	return b.Err()
 }
diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index 072cd1c..c235376 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -104,7 +104,7 @@ func ShowText(b *app.BookPrinter, report book.RegistryReport, withAcct bool, wit
 
 	b.PrintColumns(rows, fmts)
 
-	return nil
+	return b.Err()
 }
 func ShowCSV(b *app.BookPrinter, report book.RegistryReport) error {
 
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index 347b9ac..55b9d98 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -94,5 +94,5 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 		b.Printf("\n")
 	}
-	return nil
+	return b.Err()
 }
diff --git a/cmd/reports/html.go b/cmd/reports/html.go
index 9ec348d..36c4f46 100644
--- a/cmd/reports/html.go
+++ b/cmd/reports/html.go
@@ -108,7 +108,7 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 	b.Printf("</div>\n")
 	b.Printf("</body></html>\n")
 
-	return nil
+	return b.Err()
 }
 
 const styleSheet = `
diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index 307bbb2..27aaa2b 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -28,5 +28,5 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 		b.Printf("\n")
 	}
-	return nil
+	return b.Err()
 }
diff --git a/cmd/reports/text.go b/cmd/reports/text.go
index e9dc924..4464ed6 100644
--- a/cmd/reports/text.go
+++ b/cmd/reports/text.go
@@ -77,5 +77,5 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 
 	b.PrintColumns(rows, fmts)
 
-	return nil
+	return b.Err()
 }
-- 
2.43.0


From 5e517578874624de011b60a791ecd8a01bc0120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 27/48] fix: never lose the download state while saving it

The file was truncated before marshalling, errors closing it were dropped (the
test was inverted), and the tokens in it were readable by everyone.
---
 cmd/utils/json.go | 66 ++++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index 03fbf15..ceffa1a 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -105,6 +105,8 @@ func LoadFromFile(file string, data interface{}) error {
 	return nil
 }
 
+// SaveToFile saves the data as JSON. Either the file has all of the new data or,
+// if there is an error or a crash, it still has all of the old.
 func SaveToFile(file string, data interface{}) (oerr error) {
 
 	// Ensure directory exists
@@ -113,46 +115,52 @@ func SaveToFile(file string, data interface{}) (oerr error) {
 		return fmt.Errorf("failed mkdir %s: %v", filepath.Dir(file), err)
 	}
 
-	// Open the file
-	fh, err := os.OpenFile(file, os.O_TRUNC|os.O_WRONLY|os.O_CREATE, 0755)
+	// Marshal the JSON bytes
+	b, err := json.MarshalIndent(data, "", "  ")
 	if err != nil {
-		return fmt.Errorf("failed opening %s: %v", file, err)
+		return fmt.Errorf("failed marshalling to json %s: %v", file, err)
 	}
 
-	// Defered closing
+	// Write a new file next to the old one (readable only by the user -- it may have credentials)
+	fh, err := os.CreateTemp(filepath.Dir(file), filepath.Base(file)+".*")
+	if err != nil {
+		return fmt.Errorf("failed creating temporary file for %s: %v", file, err)
+	}
 	defer func() {
-		if err := fh.Close(); err != nil {
-			if oerr != nil {
-				oerr = fmt.Errorf("failed closing %s: %v", file, err)
-			}
+		if oerr != nil {
+			os.Remove(fh.Name())
 		}
 	}()
 
-	// Check if it's gz
-	var w io.Writer = fh
-	if filepath.Ext(file) == ".gz" {
-		gwriter := gzip.NewWriter(fh)
-		defer func() {
-			if err := gwriter.Close(); err != nil {
-				if oerr != nil {
-					oerr = fmt.Errorf("failed closing %s: %v", file, err)
-				}
-			}
-		}()
-		w = gwriter
+	// Write the contents
+	if err := writeContents(fh, b, filepath.Ext(file) == ".gz"); err != nil {
+		fh.Close()
+		return fmt.Errorf("failed writing to %s: %v", file, err)
 	}
-
-	// Marshal the JSON bytes
-	b, err := json.MarshalIndent(data, "", "  ")
-	if err != nil {
-		return fmt.Errorf("failed marshalling to json %s: %v", file, err)
+	if err := fh.Sync(); err != nil {
+		fh.Close()
+		return fmt.Errorf("failed writing to %s: %v", file, err)
+	}
+	if err := fh.Close(); err != nil {
+		return fmt.Errorf("failed closing %s: %v", file, err)
 	}
 
-	// Write the file
-	_, err = w.Write(b)
-	if err != nil {
-		return fmt.Errorf("failed writing to %s: %v", file, err)
+	// Replace the old file
+	if err := os.Rename(fh.Name(), file); err != nil {
+		return fmt.Errorf("failed replacing %s: %v", file, err)
 	}
 
 	return nil
 }
+
+func writeContents(w io.Writer, b []byte, compress bool) error {
+	if !compress {
+		_, err := w.Write(b)
+		return err
+	}
+	gwriter := gzip.NewWriter(w)
+	if _, err := gwriter.Write(b); err != nil {
+		return err
+	}
+	return gwriter.Close()
+}
-- 
2.43.0


From bc10a67646c9c9fdd0068c497cde0740a126c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 28/48] fix: close the state file after loading it

---
 cmd/utils/json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index ceffa1a..b781f05 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -73,8 +73,7 @@ func LoadFromFile(file string, data interface{}) error {
 	}
 
 	// Open the file
-	var fh io.Reader
-	fh, err = os.Open(file)
+	f, err := os.Open(file)
 	if err != nil {
 		if os.IsNotExist(err) {
 			return nil
@@ -82,7 +81,10 @@ func LoadFromFile(file string, data interface{}) error {
 		return fmt.Errorf("failed opening %s: %v", file, err)
 	}
 
+	defer f.Close()
+
 	// Check if it's .gz
+	var fh io.Reader = f
 	if filepath.Ext(file) == ".gz" {
 		fh, err = gzip.NewReader(fh)
 		if err != nil {
-- 
2.43.0


From 15f931401a430b32a2c90ae225a9a2350fcd9d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 29/48] fix: keep the authorisation code off the terminal and
 its state unpredictable

The state was a random number seeded with the time.
---
 cmd/download/monzo.go | 11 +++++++----
 cmd/download/net.go   |  4 ----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 46699c6..3f4c06d 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -1,6 +1,7 @@
 package download
 
 import (
+	"crypto/rand"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -8,7 +9,6 @@ import (
 	"github.com/spf13/cobra"
 	"golang.org/x/net/context"
 	"golang.org/x/oauth2"
-	"math/rand"
 	"net/http"
 	"net/url"
 	"time"
@@ -131,8 +131,11 @@ func (m *MonzoDownload) NewMonzoClient(file string) (*MonzoClient, error) {
 	if config.Token == nil {
 		fmt.Printf("Getting a brand new authorization token..\n")
 
-		rand.Seed(time.Now().UnixNano())
-		state := fmt.Sprintf("%d", rand.Int())
+		stateBytes := make([]byte, 16)
+		if _, err := rand.Read(stateBytes); err != nil {
+			return nil, fmt.Errorf("failed generating state: %w", err)
+		}
+		state := fmt.Sprintf("%x", stateBytes)
 
 		url := conf.AuthCodeURL(state, oauth2.AccessTypeOffline)
 		fmt.Printf("Visit the URL for the auth dialog: %v\n", url)
@@ -142,7 +145,7 @@ func (m *MonzoDownload) NewMonzoClient(file string) (*MonzoClient, error) {
 			return nil, fmt.Errorf("Failed capturing code: %s", err)
 		}
 		if istate != state {
-			return nil, fmt.Errorf("State %s doesn't match %s!", state, istate)
+			return nil, fmt.Errorf("State doesn't match!")
 		}
 
 		tok, err := conf.Exchange(ctx, code)
diff --git a/cmd/download/net.go b/cmd/download/net.go
index b2149d0..23c2520 100644
--- a/cmd/download/net.go
+++ b/cmd/download/net.go
@@ -48,7 +48,6 @@ func postToURL(client *http.Client, url string, pdata url.Values, data interface
 	}
 
 	if resp.StatusCode != http.StatusOK && resp.StatusCode != http.StatusCreated {
-		fmt.Printf("Got bad status code from url %v: %v, %s\n", url, resp.StatusCode, string(bodyBytes))
 		return fmt.Errorf("post url %v: status %v: %s", url, resp.StatusCode, string(bodyBytes))
 	}
 
@@ -114,13 +113,10 @@ func CaptureCode(port int) (string, string, error) {
 	fmt.Printf("Serving is waiting for response...")
 	err := server.ListenAndServe()
 	if err != http.ErrServerClosed {
-		fmt.Printf("Returning error %v\n", err)
 		return "", "", err
 	}
 	if clientErr != nil {
-		fmt.Printf("Returning client error %v\n", clientErr)
 		return "", "", clientErr
 	}
-	fmt.Printf("Returning code %v, state %v, no error\n", code, state)
 	return code, state, nil
 }
-- 
2.43.0


From 2084f4166a47bfa8c5174f5bc5a9b7b04a27c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 30/48] fix: keep tokens out of the error for a response that
 cannot be decoded

---
 cmd/download/net.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/download/net.go b/cmd/download/net.go
index 23c2520..c4436b3 100644
--- a/cmd/download/net.go
+++ b/cmd/download/net.go
@@ -54,7 +54,7 @@ func postToURL(client *http.Client, url string, pdata url.Values, data interface
 	decoder := json.NewDecoder(bytes.NewReader(bodyBytes))
 	decoder.DisallowUnknownFields()
 	if err = decoder.Decode(data); err != nil {
-		return fmt.Errorf("decoding '%v' from url %v: %w", string(bodyBytes), url, err)
+		return fmt.Errorf("decoding response from url %v: %w", url, err)
 	}
 
 	return nil
-- 
2.43.0


From 67b5dd7e11679fee71fdc47af8467503418276af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 31/48] fix: keep the options of one web request out of the
 others

Every request set its flags, and its output, on the shared configuration, also
while other requests were running.
---
 cmd/app/print.go | 18 +++++++++---------
 cmd/web/web.go   | 15 ++++++++++-----
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 0797386..27de90e 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -23,6 +23,14 @@ var termHeight = -1
 
 func init() {
 
+	// Support a number of languages
+	c := catalog.NewBuilder(catalog.Fallback(language.English))
+	c.SetString(language.Dutch, "", "")
+	c.SetString(language.English, "", "")
+	c.SetString(language.German, "", "")
+	c.SetString(language.French, "", "")
+	message.DefaultCatalog = c
+
 	// If stdout is not a terminal, stop now
 	fd := int(os.Stdout.Fd())
 	if !term.IsTerminal(fd) {
@@ -53,15 +61,7 @@ type BookPrinter struct {
 // Normally decs comes from GetCCYDecimal() from a book.
 func (app *App) NewBookPrinter(decs map[string]int) *BookPrinter {
 
-	// Create a printer for a number of languages
-	c := catalog.NewBuilder(catalog.Fallback(language.English))
-	c.SetString(language.Dutch, "", "")
-	c.SetString(language.English, "", "")
-	c.SetString(language.German, "", "")
-	c.SetString(language.French, "", "")
-	message.DefaultCatalog = c
-
-	// New printer for those languages
+	// New printer for the language
 	pr := message.NewPrinter(message.MatchLanguage(app.Lang))
 
 	return &BookPrinter{
diff --git a/cmd/web/web.go b/cmd/web/web.go
index 312d523..e6bba43 100644
--- a/cmd/web/web.go
+++ b/cmd/web/web.go
@@ -93,7 +93,12 @@ func (webcfg *WebConfig) handle(app *WebApp, resp http.ResponseWriter, req *http
 }
 
 // Execute command line program
-func (app *WebApp) Execute(args []string, out io.Writer) error {
+func (webapp *WebApp) Execute(args []string, out io.Writer) error {
+
+	// Flags are set on a copy -- they are only for this request
+	app := webapp.App
+	report := *webapp.Report
+	reg := *webapp.Register
 
 	// Set the output
 	app.Output = out
@@ -104,10 +109,10 @@ func (app *WebApp) Execute(args []string, out io.Writer) error {
 
 	// Add sub-commands
 	// As they are webified
-	accounts.Add(appCmd, &app.App)
-	reports.Add(appCmd, &app.App, app.Report)
-	register.Add(appCmd, &app.App, app.Register)
-	currencies.Add(appCmd, &app.App)
+	accounts.Add(appCmd, &app)
+	reports.Add(appCmd, &app, &report)
+	register.Add(appCmd, &app, &reg)
+	currencies.Add(appCmd, &app)
 
 	// Set the arguments
 	appCmd.SetArgs(args)
-- 
2.43.0


From 638c72919f8ef7094c00a469efa726ba5a9a7262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 32/48] fix: show all entries of a descending register

Only half of them were copied; the report crashed on the others.
---
 cmd/register/show_register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index c235376..884ea26 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -28,7 +28,7 @@ func ShowReport(b *app.BookPrinter, report book.RegistryReport, format string, c
 	// Reverse if requested
 	if !asc {
 		ndata := make([]*book.RegistryEntry, len(report), len(report))
-		for i := 0; i < len(report)/2; i++ {
+		for i := 0; i < len(report); i++ {
 			ndata[len(report)-i-1] = (report)[i]
 		}
 		report = ndata
-- 
2.43.0


From 992c70fc1c73008d68f84627ed1a99ada3dae30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 33/48] fix: reject prices of zero and prices without unit or
 currency

The inverse of a price of zero crashed reports.
---
 loader/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loader/parser.go b/loader/parser.go
index 68c577c..b721eb2 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -180,6 +180,9 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 	unit := rr.parseCCY()
 	_ = rr.consumeWS()
 	ccy, amt := rr.parseCCYAmt()
+	if unit == "" || ccy == "" || amt.Sign() == 0 {
+		rr.stop("expected price of a unit in a currency, got '%s' for '%s %s'", unit, amt.RatString(), ccy)
+	}
 	loader.AddPrice(book.Date(date), unit, ccy, amt)
 	if rr.ch == eol {
 		rr.next()
-- 
2.43.0


From 1ba2d0e12d5316ab2fc361c034df87d976c8a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 34/48] fix: text report of no transactions or with accounts
 not in every transaction crashed

---
 cmd/reports/text.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cmd/reports/text.go b/cmd/reports/text.go
index 4464ed6..2d93680 100644
--- a/cmd/reports/text.go
+++ b/cmd/reports/text.go
@@ -9,6 +9,11 @@ import (
 
 func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 
+	// Nothing to show
+	if len(trans) == 0 {
+		return b.Err()
+	}
+
 	// Main transaction (reference one)
 	postingTrans := trans[len(trans)-1]
 
@@ -71,10 +76,25 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 			}
 
 			// Record amount
+			if rows[pidx][i+1] != nil {
+				return fmt.Errorf("account %s (term %s) currency %s more than once in a transaction; must summarise!",
+					v.GetAccount(),
+					v.GetAccountTerm(),
+					v.GetCCY())
+			}
 			rows[pidx][i+1] = b.GetColumnMoney(v.GetCCY(), v.GetAmount())
 		}
 	}
 
+	// Not every account is on every transaction
+	for _, row := range rows {
+		for i := range row {
+			if row[i] == nil {
+				row[i] = app.ColumnString("")
+			}
+		}
+	}
+
 	b.PrintColumns(rows, fmts)
 
 	return b.Err()
-- 
2.43.0


From 4a1fbcfed96b455d4f54d284b56b9b5e99146109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 35/48] fix: escape ledger text in the HTML report

---
 cmd/reports/html.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/reports/html.go b/cmd/reports/html.go
index 36c4f46..2096983 100644
--- a/cmd/reports/html.go
+++ b/cmd/reports/html.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/cmd/utils"
+	"html"
 	"math/big"
 )
 
@@ -58,7 +59,7 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 		b.Printf("  <div class=\"date\">%s</div>\n", posts.GetDate())
 		payee := posts.GetPayee()
 		if payee != "" {
-			b.Printf("  <div class=\"payee\">%s</div>\n", payee)
+			b.Printf("  <div class=\"payee\">%s</div>\n", html.EscapeString(payee))
 		}
 		b.Printf("</div>\n")
 
@@ -92,8 +93,8 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 
 			thisIndent := indentedString(thisLevel)
 			b.Printf("%s  <div class=\"post indent%d %s\">\n", thisIndent, thisLevel, diff)
-			b.Printf("%s    <div class=\"account\">%s</div>\n", thisIndent, v.GetAccountTerm())
-			b.Printf("%s    <div class=\"amount %s\">%s%s</div>\n", thisIndent, sign, b.FormatSymbol(v.GetCCY()), b.FormatNumber(v.GetCCY(), amt))
+			b.Printf("%s    <div class=\"account\">%s</div>\n", thisIndent, html.EscapeString(v.GetAccountTerm()))
+			b.Printf("%s    <div class=\"amount %s\">%s%s</div>\n", thisIndent, sign, html.EscapeString(b.FormatSymbol(v.GetCCY())), b.FormatNumber(v.GetCCY(), amt))
 			b.Printf("%s  </div>\n", thisIndent)
 
 			lastLevel = thisLevel
-- 
2.43.0


From 74cbb9501dd17ce5b078453ffafdbb80ca261849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 36/48] fix: HTML report left the last nested account levels
 open

---
 cmd/reports/html.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/reports/html.go b/cmd/reports/html.go
index 2096983..74cb20b 100644
--- a/cmd/reports/html.go
+++ b/cmd/reports/html.go
@@ -99,6 +99,9 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 
 			lastLevel = thisLevel
 		}
+		for i := lastLevel - 1; i >= 0; i-- {
+			b.Printf("%s  </div>\n", indentedString(i))
+		}
 		b.Printf("</div>\n")
 
 		// End of report
-- 
2.43.0


From c6de2a98628bd7a46d0b78cf62f53f75651d4ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 37/48] fix: default configuration file was not accepted or not
 understood by the program

---
 cmd/config.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/config.go b/cmd/config.go
index 46e6ad8..dd833a7 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -86,8 +86,8 @@ The configuration file mirrors largely mirrors parameters available
 on the command line.
 
 There are two notable exceptions:
-  - report.macros
-    This section defines macros for the report (set of operations) that
+  - macros
+    This section defines macros (set of operations) that
     can be used on the command line arguments or by other macros. This
     is how complex reports can be built up.
 
@@ -115,19 +115,19 @@ const DEFAULT_CONFIG_FILE = `
 # Main defaults
 #
 #ledger =  "default_ledger_file"
-#baseccy = "ÃÂÃÂÃÂÃÂ£"
+#baseccy = "£"
 
 #
 # Defaults for the report command
 #
 [report]
 combineby = "today"
-type =      "Ansi"
+type =      "Text"
 sum =       true
 convert =   true
 credit =    "^(Income|Trading|Liability|Equity)(:.*)?$"
 
-[report.macros]
+[macros]
 macroA = [
 	"book operation A",
 	"book operation B",
@@ -154,7 +154,7 @@ dedup = true
 reclassify = true
 
 [importdefs.bankformat.params]
-ccy = "ÃÂÃÂÃÂÃÂ£"
+ccy = "£"
 date = "0"
 amount = "2"
 payee = "1"
-- 
2.43.0


From 510474427ec89fc220ddd674715fcf1129c567f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 38/48] fix: unknown report types in the configuration file
 were silently taken as another type

---
 cmd/export/export.go     |  3 +++
 cmd/register/register.go |  3 +++
 cmd/reports/report.go    |  6 ++++++
 cmd/utils/types.go       | 11 +++++++++++
 4 files changed, 23 insertions(+)

diff --git a/cmd/export/export.go b/cmd/export/export.go
index ec4e55e..40db217 100644
--- a/cmd/export/export.go
+++ b/cmd/export/export.go
@@ -40,6 +40,9 @@ func Add(cmd *cobra.Command, app *app.App, export *ExportReport) {
 	sort.Strings(macroNames)
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := exportType.Validate(); err != nil {
+			return err
+		}
 		return export.run(app, cmd, args)
 	}
 }
diff --git a/cmd/register/register.go b/cmd/register/register.go
index 5e854b3..e3cd032 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -57,6 +57,9 @@ func Add(cmd *cobra.Command, app *app.App, reg *RegisterReport) {
 	ncmd.Flags().BoolVar(&reg.Split, "split", reg.Split, "split multiple counteraccounts into separate postings")
 	ncmd.Flags().BoolVar(&reg.Convert, "convert", reg.Convert, "convert postings to base currency")
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := reportType.Validate(); err != nil {
+			return err
+		}
 		return reg.run(app, cmd, args)
 	}
 
diff --git a/cmd/reports/report.go b/cmd/reports/report.go
index 3c37627..c572fcd 100644
--- a/cmd/reports/report.go
+++ b/cmd/reports/report.go
@@ -90,6 +90,12 @@ func Add(cmd *cobra.Command, app *app.App, report *TransactionReport) {
 	sort.Strings(macroNames)
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := floorType.Validate(); err != nil {
+			return err
+		}
+		if err := reportType.Validate(); err != nil {
+			return err
+		}
 		return report.run(app, cmd, args)
 	}
 }
diff --git a/cmd/utils/types.go b/cmd/utils/types.go
index a5e1ee8..e9aa9fc 100644
--- a/cmd/utils/types.go
+++ b/cmd/utils/types.go
@@ -73,6 +73,17 @@ func (e *Enum) Set(value string) error {
 	return fmt.Errorf("invalid value '%s', must be one of %s", value, e.Values())
 }
 
+// Validate the current value (eg from configuration), if there is any
+func (e *Enum) Validate() error {
+	if *e.Value == "" {
+		return nil
+	}
+	if err := e.Set(*e.Value); err != nil {
+		return fmt.Errorf("%s: %w", e.Name, err)
+	}
+	return nil
+}
+
 func (e *Enum) String() string {
 	return *e.Value
 }
-- 
2.43.0


From 6c50ce8e0c022c0fb720dd65c314866eeefb2119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 39/48] fix: rest of a line after a posting, price or payee
 could be silently skipped

---
 loader/parser.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/loader/parser.go b/loader/parser.go
index b721eb2..116191c 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -70,9 +70,7 @@ func (rr *basicReader) parseTransaction() (book.Date, string, string) {
 	}
 	payee := rr.parsePayee()
 	note := rr.parseNote()
-	if rr.ch == eol {
-		rr.next()
-	}
+	rr.parseEOL()
 	return date, payee, note
 }
 
@@ -156,6 +154,16 @@ func (rr *basicReader) parseCCY() string {
 	return buf.String()
 }
 
+// End of the line, with nothing unexpected left on it
+func (rr *basicReader) parseEOL() {
+	if rr.ch != eol && rr.ch != eof {
+		rr.stop("expected end of line, got '%c'", rr.ch)
+	}
+	if rr.ch == eol {
+		rr.next()
+	}
+}
+
 func (rr *basicReader) skipLine() {
 	var buf bytes.Buffer
 	for rr.ch != eof && rr.ch != eol {
@@ -184,9 +192,8 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 		rr.stop("expected price of a unit in a currency, got '%s' for '%s %s'", unit, amt.RatString(), ccy)
 	}
 	loader.AddPrice(book.Date(date), unit, ccy, amt)
-	if rr.ch == eol {
-		rr.next()
-	}
+	_ = rr.parseNote()
+	rr.parseEOL()
 }
 
 // Parse a ledger formatted file (see https://www.ledger-cli.org/) and
@@ -334,10 +341,12 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 		_ = rr.consumeWS()
 		_, _ = rr.parseCCYAmt()
 	}
-	note := rr.parseNote()
-	if rr.ch == eol {
-		rr.next()
+	if rr.ch == '=' {
+		// Balance assertion -- ignore this for now.
+		rr.parseToEOL()
 	}
+	note := rr.parseNote()
+	rr.parseEOL()
 
 	if ccy == "" {
 		if dec.Sign() != 0 {
-- 
2.43.0


From 4ef18b760ed83cea355128d7159301a810513216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 40/48] fix: generate deduplicated against the book as left by
 the code

---
 cmd/generate/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/generate/generate.go b/cmd/generate/generate.go
index 411ef74..8f22d4c 100644
--- a/cmd/generate/generate.go
+++ b/cmd/generate/generate.go
@@ -21,8 +21,8 @@ func (gen *Generate) run(app *app.App, rcmd *cobra.Command, args []string) error
 		return fmt.Errorf("error loading book: %s", err)
 	}
 
-	// Generate the records from the main book
-	b, err := gen.generate(main, gen.Code)
+	// Generate the records from a copy of the main book, as the code can change it
+	b, err := gen.generate(main.Duplicate(), gen.Code)
 	if err != nil {
 		return fmt.Errorf("error processing data: %w", err)
 	}
-- 
2.43.0


From 86c0611edac8ff7cf0d0c981c44c8dbfc3c49dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 41/48] fix: reclassify to the most common account of the
 payee, not whichever is seen last

---
 book/book_reclassify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/book_reclassify.go b/book/book_reclassify.go
index c06b031..8bf478c 100644
--- a/book/book_reclassify.go
+++ b/book/book_reclassify.go
@@ -53,7 +53,7 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		macct := ""
 		for cacct, k := range caccts {
 			if k > max || (k == max && cacct < macct) {
-				k = max
+				max = k
 				macct = cacct
 			}
 		}
-- 
2.43.0


From e017eac1fb273bf27ca14a17f4a766744f043f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 42/48] fix: an import of JSON with something after the
 structure is an error

---
 script/convert.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 34b6374..45a38de 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -65,11 +65,19 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 // This is a Starlark Reader
 func ReadJSON(r io.Reader) (starlark.Value, error) {
 	var p interface{}
-	err := json.NewDecoder(r).Decode(&p)
+	dec := json.NewDecoder(r)
+	err := dec.Decode(&p)
 	if err != nil {
 		return nil, fmt.Errorf("json parsing: %w", err)
 	}
 
+	// Nothing is to follow the structure
+	if _, err := dec.Token(); err == nil {
+		return nil, fmt.Errorf("json parsing: unexpected data after the structure")
+	} else if err != io.EOF {
+		return nil, fmt.Errorf("json parsing: %w", err)
+	}
+
 	s, err := jsonToStarlark(p)
 	if err != nil {
 		return nil, fmt.Errorf("json conversion: %w", err)
-- 
2.43.0


From 1c74c599018139a1a2ba1bd33c8ca7a4a9b6199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 43/48] fix: register reports output that could not be written,
 in every format

---
 cmd/register/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/register.go b/cmd/register/register.go
index e3cd032..773ddef 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -128,6 +128,6 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 		}
 	}
 
-	return nil
+	return bp.Err()
 
 }
-- 
2.43.0


From b7f9f4a0b6b64be78bc52715703b311e95139c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:01 +0000
Subject: [PATCH 44/48] fix: shell notices that it could not write

---
 cmd/utils/shell.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/utils/shell.go b/cmd/utils/shell.go
index 8fafd2c..6167bb3 100644
--- a/cmd/utils/shell.go
+++ b/cmd/utils/shell.go
@@ -33,10 +33,14 @@ func AddShell(root *cobra.Command) {
 	ncmd.PreRunE = cobra.NoArgs
 	ncmd.RunE = func(rcmd *cobra.Command, args []string) error {
 		if shell == "bash" {
-			fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n")
+			if _, err := fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n"); err != nil {
+				return err
+			}
 			return root.GenBashCompletion(rcmd.OutOrStdout())
 		} else if shell == "zsh" {
-			fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n")
+			if _, err := fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n"); err != nil {
+				return err
+			}
 			return root.GenZshCompletion(rcmd.OutOrStdout())
 		} else if shell == "powershell" {
 			return root.GenPowerShellCompletion(rcmd.OutOrStdout())
-- 
2.43.0


From e5cc2d7747f022e78de04cbc9d8688b3acb72da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:16 +0000
Subject: [PATCH 45/48] fix: help does not show the configured secrets

---
 cmd/download/monzo.go    | 1 +
 cmd/download/nordigen.go | 1 +
 cmd/download/starling.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 3f4c06d..1652cfe 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -35,6 +35,7 @@ func (m *MonzoDownload) Add(root *cobra.Command) {
 	}
 	ncmd.Flags().StringVar(&m.ClientID, "clientid", m.ClientID, "Client ID for application")
 	ncmd.Flags().StringVar(&m.ClientSecret, "clientsecret", m.ClientSecret, "Client Secret for application")
+	ncmd.Flags().Lookup("clientsecret").DefValue = "" // do not show it in help
 	ncmd.Flags().IntVarP(&m.Port, "port", "p", m.Port, "Port for OAuth2 loop-back on localhost (must match app config)")
 	ncmd.Args = cobra.ExactArgs(1)
 	ncmd.RunE = func(rcmd *cobra.Command, args []string) error {
diff --git a/cmd/download/nordigen.go b/cmd/download/nordigen.go
index 3b07946..1f00b92 100644
--- a/cmd/download/nordigen.go
+++ b/cmd/download/nordigen.go
@@ -30,6 +30,7 @@ func (m *NordigenDownload) Add(root *cobra.Command) {
 	}
 	ncmd.Flags().StringVar(&m.ClientID, "Client ID", m.ClientID, "Client Secret for Nordigen")
 	ncmd.Flags().StringVar(&m.ClientSecret, "Client Secret", m.ClientSecret, "Client ID for Nordigen")
+	ncmd.Flags().Lookup("Client Secret").DefValue = "" // do not show it in help
 	ncmd.Args = cobra.ExactArgs(1)
 	ncmd.RunE = func(rcmd *cobra.Command, args []string) error {
 		client, err := m.NewNordigenClient(args[0])
diff --git a/cmd/download/starling.go b/cmd/download/starling.go
index 6b3ee1c..d17b81f 100644
--- a/cmd/download/starling.go
+++ b/cmd/download/starling.go
@@ -28,6 +28,7 @@ func (m *StarlingDownload) Add(root *cobra.Command) {
 		DisableAutoGenTag: true,
 	}
 	ncmd.Flags().StringVar(&m.PersonalAccessToken, "personalAccessToken", m.PersonalAccessToken, "Personal Access Token for Starling")
+	ncmd.Flags().Lookup("personalAccessToken").DefValue = "" // do not show it in help
 	downloadAllMsg := fmt.Sprintf("Download all data (default is %d days prior to most recent transaction)", STARLING_DAYS_AGO)
 	ncmd.Flags().BoolVar(&m.AllData, "alldata", m.AllData, downloadAllMsg)
 	ncmd.Args = cobra.ExactArgs(1)
-- 
2.43.0


From a04f080ecc06f6dd41c1b313fea0b0fdfda8733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:22 +0000
Subject: [PATCH 46/48] fix: summary leaves out a group when a neighbouring
 account goes on without a divider

---
 book/book_accum.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index f94d388..ee948df 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -16,14 +16,14 @@ func findMaxCommonPrefix(left string, right string, divider string) string {
 		if left[i] != right[i] {
 			break
 		}
-		if strings.HasPrefix(left[i:], divider) {
+		if strings.HasPrefix(left[i:], divider) && strings.HasPrefix(right[i:], divider) {
 			prefix = i
 		}
 	}
 
-	if (i < len(left) && strings.HasPrefix(left[i:], divider)) ||
-		(i < len(right) && strings.HasPrefix(right[i:], divider)) ||
-		(i == len(left) && i == len(right)) {
+	// Only an account of both if neither component goes on
+	if (i == len(left) || strings.HasPrefix(left[i:], divider)) &&
+		(i == len(right) || strings.HasPrefix(right[i:], divider)) {
 		prefix = i
 	}
 
@@ -212,6 +212,20 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 		}
 	}
 
+	// Accounts with postings of their own and others under them -- which may not be neighbours
+	accts := make(map[string]bool)
+	for _, p := range posts {
+		accts[p.GetAccount()] = true
+	}
+	for _, p := range posts {
+		acct := p.GetAccount()
+		for i := 0; i < len(acct); i++ {
+			if strings.HasPrefix(acct[i:], divider) && accts[acct[:i]] {
+				accum[acct[:i]] = true
+			}
+		}
+	}
+
 	transIdx := 0
 	i := 0
 	for {
-- 
2.43.0


From 7772c815b35dfad051996fc4a5c6d89a4808cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:23 +0000
Subject: [PATCH 47/48] fix: an import setting given again without a value
 silently replaced the first

---
 cmd/utils/cli_config.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/utils/cli_config.go b/cmd/utils/cli_config.go
index a55327a..305fe15 100644
--- a/cmd/utils/cli_config.go
+++ b/cmd/utils/cli_config.go
@@ -62,16 +62,17 @@ func (cfg *CLIConfig) Set(config string) error {
 	for _, arg := range strings.Split(parts[1], ",") {
 
 		argpair := strings.SplitN(arg, "=", 2)
-		if len(argpair) != 2 {
-			cfg.Params[argpair[0]] = "true"
-			continue
-		}
 
 		_, ok := cfg.Params[argpair[0]]
 		if ok {
 			return fmt.Errorf("invalid config '%s': arg '%s' set more than once", config, argpair[0])
 		}
 
+		if len(argpair) != 2 {
+			cfg.Params[argpair[0]] = "true"
+			continue
+		}
+
 		cfg.Params[argpair[0]] = argpair[1]
 	}
 
-- 
2.43.0


From 36427732733cd967771bad8255d4f85bbefb4a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:54 +0000
Subject: [PATCH 48/48] fix: every line that a script prints is a comment

---
 script/starlark.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/starlark.go b/script/starlark.go
index 749089d..fffd843 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -9,10 +9,11 @@ import (
 	"go.starlark.net/starlark"
 	"math/big"
 	"os"
+	"strings"
 )
 
 func Print(_ *starlark.Thread, msg string) {
-	fmt.Printf("; %s\n", msg)
+	fmt.Printf("; %s\n", strings.ReplaceAll(msg, "\n", "\n; "))
 }
 
 var userError = errors.New("user code")
-- 
2.43.0

