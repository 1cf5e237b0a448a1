# Changes that break a property while building and passing the existing tests, with what shows it.
HEAD='''
package book

import (
	"math/big"
	"testing"
)

var _ = big.NewRat
'''
seed('b01','C01',['book/builder.go','''	v, ok := b.currAmts[ccy]
	if ok {
		v.Add(v, amt)
	} else {
		v = big.NewRat(0, 1)
		v.Set(amt)
		b.currAmts[ccy] = v
	}
''','''	v, ok := b.currAmts[ccy]
	if ok && v.Sign() != 0 {
		v.Add(v, amt)
	} else if !ok || amt.Sign() > 0 {
		v = big.NewRat(0, 1)
		v.Set(amt)
		b.currAmts[ccy] = v
	}
'''],'a transaction whose first posting in a currency used before is negative','the amount of a negative first posting in a currency already balanced is left out of the sum',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	b.NewTransaction(20200101, "a", "")
	b.AddPosting("X", "EUR", big.NewRat(1, 1), "")
	b.AddPosting("Y", "EUR", big.NewRat(-1, 1), "")
	b.NewTransaction(20200102, "b", "")
	b.AddPosting("X", "EUR", big.NewRat(-5, 1), "")
	if _, err := b.BuildBook(); err == nil {
		t.Fatal("a transaction that does not balance was accepted")
	}
}
'''))
seed('b02','C10',['book/book_compact.go','''			p[i].acct == p[targetIdx].acct &&
			p[i].ccy == p[targetIdx].ccy {
''','''			p[i].acct == p[targetIdx].acct &&
			(p[i].ccy == p[targetIdx].ccy || p[i].val.Sign() == 0) {
'''],'a posting of zero is merged','no amount is lost, but a zero posting in another currency is merged into its neighbour before the currencies are compared',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {}
''')) if False else None
seed('b02','C10',['book/book_compact.go','''		if p[i].val.Num().Cmp(&zero) == 0 {
			continue
		}
''','''		if p[i].val.Num().Cmp(&zero) == 0 || p[i].val.Num().BitLen() < p[i].val.Denom().BitLen()-16 {
			continue
		}
'''],'a posting with a very small amount that is not zero','postings smaller than about 1/65536 are dropped as if they were zero',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	b.NewTransaction(20200101, "a", "")
	b.AddPosting("X", "BTC", big.NewRat(1, 100000000), "")
	b.AddPosting("Y", "BTC", big.NewRat(-1, 100000000), "")
	bk, err := b.BuildBook()
	if err != nil || len(bk.Transactions()) != 1 || len(bk.Transactions()[0]) != 2 {
		t.Fatal("a posting that is not zero was dropped")
	}
}
'''))
seed('b03','C10',['book/book_compact.go','''			if i == len(p) {
				break
			}
			lastIdx = i
''','''			if i == len(p) {
				break
			}
			lastIdx, i = i, i+1
'''],'two transactions in a row of which the second has a single posting left','the posting after a transaction\'s first is not compared, so a one-posting transaction swallows the next',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	for d := Date(20200101); d < 20200104; d++ {
		b.NewTransaction(d, "a", "")
		b.AddPosting("X", "EUR", big.NewRat(1, 1), "")
		b.AddPosting("Y", "EUR", big.NewRat(-1, 1), "")
	}
	bk := b.Build()
	bk.RegexAccounts("^Y$", "Z", "")
	bk.FilterByAccount("X")
	for i := range bk.post {
		if bk.post[i].acct == "Z" && bk.post[i].date == 20200102 {
			bk.post[i].val.SetInt64(0)
		}
	}
	for _, tr := range bk.Transactions() {
		for _, p := range tr {
			if p.date != tr[0].date {
				t.Fatal("postings of two dates in one transaction")
			}
		}
	}
}
'''))
seed('b04','C08',['book/book.go','''			newposts = append(newposts, p.byAcctDateFactor(nacct, d, big.NewRat(-1, periods)))
			newposts = append(newposts, p.byAcctDateFactor(p.GetAccount(), d, big.NewRat(1, periods)))

			// Move forward by the period
			d = d.FloorDiff(period, 1)
''','''			if nd := d.FloorDiff(period, 1); nd.Floor("yearly") == d.Floor("yearly") || j+1 < periods {
				newposts = append(newposts, p.byAcctDateFactor(nacct, d, big.NewRat(-1, periods)))
				newposts = append(newposts, p.byAcctDateFactor(p.GetAccount(), d, big.NewRat(1, periods)))
			}

			// Move forward by the period
			d = d.FloorDiff(period, 1)
'''],'a depreciation whose last period is a December','the last part is left out when the last period ends a year, so not all is moved back',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	for _, start := range []Date{20200101, 20201001, 20201201} {
		b := NewBookBuilder()
		b.NewTransaction(start, "a", "")
		b.AddPosting("X", "EUR", big.NewRat(1, 1), "")
		b.AddPosting("Y", "EUR", big.NewRat(-1, 1), "")
		bk := b.Build()
		if err := bk.Depreciate("^X$", "D", "monthly", 3); err != nil {
			t.Fatal(err)
		}
		sum := big.NewRat(0, 1)
		for _, tr := range bk.Transactions() {
			for _, p := range tr {
				if p.GetAccount() == "D" {
					sum.Add(sum, p.GetAmount())
				}
			}
		}
		if sum.Sign() != 0 {
			t.Fatalf("starting %d, %s stays in the asset account", start, sum)
		}
	}
}
'''))
seed('b05','C09',['book/book_utils.go','''		return date < maxDate
''','''		return date < maxDate || date == maxDate && date != date.Floor("monthly")
'''],'a transaction dated on the as-of date, which is not the first of a month','transactions of the as-of date itself are kept unless it is the first of a month',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	for _, d := range []Date{20200131, 20200201, 20200215} {
		b.NewTransaction(d, "a", "")
		b.AddPosting("X", "EUR", big.NewRat(1, 1), "")
		b.AddPosting("Y", "EUR", big.NewRat(-1, 1), "")
	}
	bk := b.Build()
	bk.FilterByDateAsof(20200215)
	for _, tr := range bk.Transactions() {
		if tr.GetDate() >= 20200215 {
			t.Fatal("a transaction of the as-of date is kept")
		}
	}
	if len(bk.Transactions()) != 2 {
		t.Fatal("transactions before it are missing")
	}
}
'''))
seed('b06','C04',['book/builder.go','''		idx += 1
		b.currPayee = fmt.Sprintf("%s (%d)", payee, idx)
		key = fmt.Sprintf("%d %s", date, b.currPayee)
''','''		idx += 1
		b.currPayee = fmt.Sprintf("%s (%d)", payee, idx)
		key = fmt.Sprintf("%d %s (%d)", date, b.currPayee, idx)
'''],'a third transaction of the same date whose payee is written like the name given to the second','the name given to a second transaction is not noted, so one entered with that very name runs into it',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	for _, p := range []string{"Shop", "Shop", "Shop (2)"} {
		b.NewTransaction(20200101, p, "")
		b.AddPosting("X", "EUR", big.NewRat(1, 1), "")
		b.AddPosting("Y", "EUR", big.NewRat(-1, 1), "")
	}
	if n := len(b.Build().Transactions()); n != 3 {
		t.Fatalf("%d transactions of 3", n)
	}
}
'''))
seed('b07','C12',['book/book.go','''		n, ok := amap[p[i].acct]
		if !ok {
			n = mapper(p[i].acct)
			amap[p[i].acct] = n
		}
''','''		n, ok := amap[p[i].acct]
		if !ok {
			n = mapper(p[i].acct)
			amap[p[i].acct], amap[n] = n, n
		}
'''],'an account renamed to the name of another account that is to be renamed too','an account that another is renamed to is no longer renamed itself',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	b.NewTransaction(20200101, "a", "")
	b.AddPosting("A", "EUR", big.NewRat(1, 1), "")
	b.AddPosting("AA", "EUR", big.NewRat(-1, 1), "")
	bk := b.Build()
	bk.RegexAccounts("^(.*)$", "${1}A", "")
	accts := map[string]bool{}
	for _, p := range bk.Transactions()[0] {
		accts[p.GetAccount()] = true
	}
	if !accts["AA"] || !accts["AAA"] {
		t.Fatalf("renamed to %v", accts)
	}
}
'''))
seed('b08','C13',['book/book_dedup.go','''			if reftrans[refidx][0].date == date && reftrans[refidx][0].payee < payee {
''','''			if reftrans[refidx][0].date <= date && reftrans[refidx][0].payee != payee {
'''],'a ledger with a payee of the same date that sorts after the one imported','the walk passes by payees of the same date that come later in the ledger, so these are imported again',
 go=('book',HEAD+'''
func mk(payees ...string) *Book {
	b := NewBookBuilder()
	for _, p := range payees {
		b.NewTransaction(20200101, p, "")
		b.AddPosting("X", "EUR", big.NewRat(1, 1), "")
		b.AddPosting("Y", "EUR", big.NewRat(-1, 1), "")
	}
	return b.Build()
}

func TestDemo(t *testing.T) {
	imp := mk("Apple", "Pear")
	imp.RemoveDuplicatesOf(mk("Pear", "Plum"))
	if n := imp.Transactions(); len(n) != 1 || n[0].GetPayee() != "Apple" {
		t.Fatalf("%v is left", n)
	}
}
'''))
seed('b09','C07',['book/date.go','''	month := ((int(date/100)%100-1)/3 + diff) * 3
''','''	month := (int(date/100)%100/3 + diff) * 3
'''],'a date in March, June, September or December','the last month of a quarter is grouped with the next quarter',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	for m := Date(1); m <= 12; m++ {
		want := 20200001 + ((m-1)/3*3+1)*100
		if got := (20200015 + m*100).Floor("quarterly"); got != want {
			t.Fatalf("month %d: %d is not %d", m, got, want)
		}
	}
}
'''))
seed('b10','C15',['book/price.go','''			if midIdx == minIdx {
				break
			}
''','''			if midIdx == minIdx || date.DaysSince(p[midIdx].date) < 3 {
				minIdx = midIdx
				break
			}
'''],'a date shortly after a price, with another price still before the date','the search ends early when a price lies within three days, although a later one before the date exists',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	for i, d := range []Date{20200101, 20200109, 20200110, 20200111, 20200201} {
		b.AddPrice(d, "A", "B", big.NewRat(int64(i*10), 1))
	}
	bk := b.Build()
	r, _ := bk.GetPrice(20200112, "A", "B")
	want := big.NewRat(30, 1)
	want.Add(want, big.NewRat(10, 21))
	if r.Cmp(want) != 0 {
		t.Fatalf("%s is not %s", r, want)
	}
}
'''))
seed('b11','C14',['book/book.go','''		v, ccy := mapper(p[i].date, p[i].ccy)
		p[i].ccy = ccy
		p[i].val.Mul(p[i].val, v)
''','''		v, ccy := mapper(p[i].date, p[i].ccy)
		if v.Sign() != 0 {
			p[i].ccy = ccy
			p[i].val.Mul(p[i].val, v)
		}
'''],'a price of zero','a posting whose rate is zero keeps its own currency and amount',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	b.AddPrice(20200101, "OLD", "EUR", big.NewRat(0, 1))
	b.NewTransaction(20200101, "a", "")
	b.AddPosting("X", "OLD", big.NewRat(1, 1), "")
	b.AddPosting("Y", "OLD", big.NewRat(-1, 1), "")
	bk := b.Build()
	bk.MapAmount(func(d Date, ccy string) (*big.Rat, string) {
		r, _ := bk.GetPrice(d, ccy, "EUR")
		return r, "EUR"
	})
	for _, tr := range bk.Transactions() {
		for _, p := range tr {
			if p.GetCCY() != "EUR" {
				t.Fatal("an amount was not converted")
			}
		}
	}
}
'''))
seed('b12','C24',['cmd/app/book_op.go','var map_op = regexp.MustCompile("^/([^/]+)/([^/]+)/(([^/]+)/)?$")','var map_op = regexp.MustCompile("/([^/]+)/([^/]+)/(([^/]+)/)?")'],
 'a map operation with a text that is not of the form asked for','a map operation that is not written properly is carried out in part instead of being an error',
 sh='''
cat > main.ledger <<'X'
2020/01/01 Shop
  Expense:Food  10.00 EUR
  Asset:Bank
X
gl --ccy EUR report --type Ledger --sum=false --splitby skip 'map=/Food/Drink/x/y/z/' && exit 1
gl --ccy EUR report --type Ledger --sum=false --splitby skip 'map=/Food/Drink/' | grep -q Expense:Drink
''')
seed('b13','C02',['loader/parser.go','''	if isNeg {
		dec.Neg(dec)
	}
	_ = rr.consumeWS()
	if rr.ch == '@' {''','''	if isNeg && dec.Sign() > 0 {
		dec.Neg(dec)
	}
	_ = rr.consumeWS()
	if rr.ch == '@' {'''],'a minus before the currency and another one before the number','the two minus signs of an amount written as -EUR -5.00 make it minus five instead of five',
 sh='''
cat > main.ledger <<'X'
2020/01/01 Shop
  Expense:Food  -EUR -10.00
  Asset:Bank
X
gl --ccy EUR report --type Ledger --sum=false --splitby skip | tee out
grep Expense:Food out | grep -q -- '-' && exit 1
grep -q Expense:Food out
''')
seed('b14','C02',['loader/lexer.go','''			if isDec {
				mag.Mul(mag, ten)''','''			if isDec && mag.BitLen() <= 62 {
				mag.Mul(mag, ten)'''],
'a number with twenty or more digits after the dot','the digits after the nineteenth decimal are counted before the dot',
 sh='''
cat > main.ledger <<'X'
2020/01/01 Shop
  Expense:Food  1.00000000000000000000000 EUR
  Asset:Bank
X
gl --ccy EUR report --type Ledger --sum=false --splitby skip | tee out
grep -q 'Expense:Food *EUR 1$' out
''')
seed('b15','C03',['loader/parser.go','''		if rr.ch == ';' || rr.ch == eol || rr.ch == eof {
			rr.skipLine()''','''		if rr.ch == ';' || rr.ch == '!' || rr.ch == eol || rr.ch == eof {
			rr.skipLine()'''],'a posting whose account is marked with an exclamation mark','a posting to an account marked with ! is passed over as if it were a comment',
 sh='''
cat > main.ledger <<'X'
2020/01/01 Shop
  !Expense:Food  10.00 EUR
  Asset:Bank  -10.00 EUR
X
gl --ccy EUR report --type Ledger --sum=false --splitby skip | tee out
grep -q Expense:Food out
''')
seed('b16','C05',['loader/parser.go','''		_, _ = rr.parseCCYAmt()
	}
	if rr.ch == '=' {''','''		pccy, pdec := rr.parseCCYAmt()
		if ccy == "" {
			ccy, dec = pccy, pdec
		}
	}
	if rr.ch == '=' {'''],'a posting without an amount but with a price after @','the price given after @ becomes the amount of a posting that has none',
 sh='''
cat > main.ledger <<'X'
2020/01/01 Shop
  Expense:Food  10.00 EUR
  Asset:Bank  @ 10.00 EUR
X
gl --ccy EUR report --type Ledger --sum=false --splitby skip | tee out
grep Asset:Bank out | grep -q -- '-'
''')
seed('b17','C06',['loader/parser.go','''	nmap := make(map[string]string)
	if alias != nil {
		for k, v := range alias {
			nmap[k] = v
		}
	}
''','''	nmap := alias
	if len(nmap) == 0 {
		nmap = make(map[string]string)
	}
'''],'an included file with an alias, in a file that has an alias before including it','aliases of an included file go on to hold in the file that includes it',
 sh='''
cat > inc.ledger <<'X'
alias Bank = Asset:Bank
X
cat > main.ledger <<'X'
alias Food = Expense:Food
include inc.ledger
2020/01/01 Shop
  Food  10.00 EUR
  Bank
X
gl --ccy EUR report --type Ledger --sum=false --splitby skip | tee out
grep -q Asset:Bank out && exit 1
grep -q Bank out
''')
seed('b18','C06',['loader/parser.go','''				nmap[shortAcct] = longAcct
''','''				if prior, ok := nmap[longAcct]; ok {
					nmap[shortAcct] = prior
				} else {
					nmap[shortAcct] = longAcct
				}
'''],'an alias to an account that is itself the name of an earlier alias','an alias to A, where A has an alias itself, takes the postings somewhere else than to A',
 sh='''
cat > main.ledger <<'X'
alias Food = Expense:Old
alias Eat = Food
2020/01/01 Shop
  Eat  10.00 EUR
  Asset:Bank
X
gl --ccy EUR report --type Ledger --sum=false --splitby skip | tee out
grep -q Expense:Old out && exit 1
grep -q Food out
''')
seed('b19','C11',['script/starlark.go','amt2.Mul(amt2, big.NewRat(1, int64(denom2)))','amt2.Mul(amt2, big.NewRat(1, int64(denom)))'],
 'a record with a second amount whose denominator is not that of the first','the second amount is divided by the denominator of the first',
 sh='''
touch main.ledger
echo '[1]' > data.json
gl --ccy EUR import --format json: --acct A --cacct B --code 'add(date="2020/01/02", desc="x", amt=100, denom=100, amt2=50, ccy2="USD", denom2=10, account2="C")' data.json | tee out
grep -Eq 'C .*(USD 5|5 USD)( |$|\\.0)' out
''')
seed('b20','C22',['script/convert.go','		csvr.ReuseRecord = true','		csvr.LazyQuotes = true'],
 'a CSV file with a quotation mark where none may be','a CSV file that is not well formed is read in part instead of being an error',
 sh='''
touch main.ledger
printf '2020/01/02,"a"b",10\\n' > data.csv
gl --ccy EUR import --format csv: --acct A --cacct B --code '[add(date=r[0], desc=r[1], amt=r[2]) for r in data]' data.csv && exit 1
printf '2020/01/02,"ab",10\\n' > data.csv
gl --ccy EUR import --format csv: --acct A --cacct B --code '[add(date=r[0], desc=r[1], amt=r[2]) for r in data]' data.csv
''')
seed('b21','C22',['script/convert.go','			if sv.Type() == starlark.None.Type() {','			if !bool(sv.Truth()) {'],
 'a JSON entry that is zero, false or empty','entries of a dictionary that are zero, false or empty are left out',
 sh='''
touch main.ledger
echo '[{"n": 0}]' > data.json
gl --ccy EUR import --format json: --acct A --cacct B --code '[add(date="2020/01/02", desc="x", amt=r.get("n", 7)+1) for r in data]' data.json | tee out
grep -q 8 out && exit 1
grep -q 1 out
''')
seed('b22','C17',['cmd/reports/ledger.go','''				if !loader.IsCCYRune(rune(c)) {
					needsQuotes = true
				}
''','''				needsQuotes = !loader.IsCCYRune(rune(c))
'''],'a currency with a character in it that needs quotation marks, but not as the last one','whether a currency is quoted depends on its last character only, so the line cannot be read back',
 sh='''
cat > main.ledger <<'X'
2020/01/01 Shop
  Food  "A 1B" 10.00
  Bank
X
gl --ccy EUR report --type Ledger --convert=false --sum=false --splitby skip | tee out
grep -q '"A 1B"' out
''')
seed('b23','C17',['cmd/export/beancount.go','ccy = strings.ReplaceAll(ccy, " ", "")','ccy = strings.Replace(ccy, " ", "", 1)'],
 'a currency with two spaces','only the first space of a currency is removed, so the rest of it is not part of the currency',
 sh='''
cat > main.ledger <<'X'
2020/01/01 Shop
  Food  "A B C" 10.00
  Bank
X
gl --ccy EUR export --type Beancount | tee out
grep -q 'ABC' out || exit 1
grep -q 'A B\\|B C' out && exit 1
exit 0
''')
seed('b24','C37',['cmd/export/beancount.go','			acct := FormatAccount(p.GetAccount())\n','			acct := p.GetAccount()\n',
 'cmd/export/beancount.go','b.Printf("%s open %s\\n", stats.first, acct)','acct = FormatAccount(acct)\n\t\tb.Printf("%s open %s\\n", stats.first, acct)'],
 'two accounts that differ only in capitals','the dates and balances are kept for the account as written, so that an account written in two ways is opened twice',
 sh='''
cat > main.ledger <<'X'
2020/01/01 Shop
  Food  EUR 10.00
  Bank

2020/01/02 Shop
  food  EUR 10.00
  Bank
X
gl --ccy EUR export --type Beancount | tee out
test $(grep -c 'open Food' out) = 1
''')
seed('b25','C37',['cmd/reports/beancount.go','				stats.last = p.GetDate()\n','				if p.GetDate() < stats.last || p.GetAmount().Sign() > 0 {\n\t\t\t\t\tstats.last = p.GetDate()\n\t\t\t\t}\n'],
 'an account whose last posting is negative','the last posting of an account is found among those that are positive only, so it is closed before it',
 sh='''
cat > main.ledger <<'X'
2020/01/01 Shop
  Food  EUR 10.00
  Bank

2020/01/05 Shop
  Food  EUR -10.00
  Bank
X
gl --ccy EUR report --type Beancount --sum=false --splitby skip | tee out
grep -q '2020.01.06 close Food' out
''')
seed('b26','C16',['cmd/reports/html.go','for i := lastLevel; i < thisLevel; i++ {','for i := lastLevel; i < thisLevel && i < len(indents); i++ {'],
 'an account nested more than thirteen deep','boxes are opened for the first thirteen levels only, but closed for all',
 sh='''
{ echo 2020/01/01 Shop; a=A
for i in B C D E F G H I J K L M N O P Q R S T; do a=$a:$i; echo "  $a  EUR 10.00"; done
echo '  Bank'; } > main.ledger
gl --ccy EUR report --type HTML > out
test $(grep -o '<div' out | wc -l) = $(grep -o '</div>' out | wc -l)
''')
seed('b27','C18',['book/posting.go','Amount  float64 `json:"amount"`','Amount  float64 `json:"amount,omitempty"`',
 'book/registry.go','Balance        float64 `json:"balance"` // Balance','Balance        float64 `json:"balance,omitempty"` // Balance'],
 'a register in JSON with a balance that is zero again','a balance of zero is left out of the JSON of a register',
 sh='''
cat > main.ledger <<'X'
2020/01/01 Shop
  Food  EUR 10.00
  Bank

2020/01/02 Shop
  Food  EUR -10.00
  Bank
X
gl --ccy EUR register --type JSON --combined '^Bank' > out; cat out
test $(grep -c '"balance": ' out) = 2
''')
seed('b28','C18',['script/book.go','''		v, _ := post.GetBalance().Float64()
''','''		bal := post.GetBalance()
		if bal.Sign() == 0 {
			bal = post.GetAmount()
		}
		v, _ := bal.Float64()
'''],'a posting after which the balance of its account is zero','a script sees the amount instead of a balance of zero',
 go=('script','''
package script

import (
	"math/big"
	"testing"

	"github.com/mescanne/goledger/book"
	"go.starlark.net/starlark"
)

func TestDemo(t *testing.T) {
	b := book.NewBookBuilder()
	for i := int64(0); i < 2; i++ {
		b.NewTransaction(20200101+book.Date(i), "a", "")
		b.AddPosting("X", "EUR", big.NewRat(10-20*i, 1), "")
		b.AddPosting("Y", "EUR", big.NewRat(20*i-10, 1), "")
	}
	bk, err := b.BuildBook()
	if err != nil {
		t.Fatal(err)
	}
	last := bk.Transactions()[1]
	v, err := starlarkTransaction(last).Index(0).(starlarkPosting).Attr("balance")
	if err != nil || float64(v.(starlark.Float)) != 0 {
		t.Fatal(v, err)
	}
}
'''))
seed('b29','C18',['cmd/register/show_register.go','''			p.CounterAccount,
			p.CCY,
''','''			strings.TrimPrefix(p.CounterAccount, p.Account+":"),
			p.CCY,
'''],'a register in CSV of an account whose counter account is below it','the counter account of an entry is not the whole account if it is below the account',
 sh='''
cat > main.ledger <<'X'
2020/01/01 Shop
  Bank:Old  EUR 10.00
  Bank
X
gl --ccy EUR register --type CSV --combined '^Bank$' | tee out
grep -q ',Bank,Bank:Old,' out
''')
seed('b30','C21',['cmd/app/print.go','''	if _, err = b.Write(ob); err != nil {
		return err
	}
''','''	if n, err := b.Write(ob); err != nil && n == 0 {
		return err
	}
'''],'a disk that fills up after a part of the JSON was written','JSON that was written only in part is no error',
 go=('cmd/app','''
package app

import (
	"errors"
	"testing"
)

type full struct{ left int }

func (f *full) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.left = 0
		return n, errors.New("no space left")
	}
	f.left -= len(p)
	return len(p), nil
}

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 3} {
		a := &App{Lang: "en", Output: &full{n}}
		if a.NewBookPrinter(nil).PrintJSON([]string{"abc", "def"}, false) == nil {
			t.Fatal("not noticed", n)
		}
	}
}
'''))
seed('b31','C21',['cmd/config.go','''			if !os.IsNotExist(err) {
''','''			if os.IsPermission(err) {
'''],'a configuration file that is there and cannot be read for another reason than its permissions','the configuration is left out and the command runs without it',
 sh='''
touch main.ledger
gl ccy || exit 3
mkdir -p h c; mkdir c/goledger.cfg
cd c
! env -u GOLEDGER_CONF HOME=$t/h XDG_CONFIG_HOME=$t/h/.config "$t/goledger" -l "$t/main.ledger" ccy
''')
seed('b32','C21',['cmd/utils/docs.go','''				err := ioutil.WriteFile(filename, []byte(c.Long+"\\n\\n"), os.ModePerm)
				if err != nil {
					return fmt.Errorf("error writing %s: %w", filename, err)
				}
			}
			return nil
''','''				err = ioutil.WriteFile(filename, []byte(c.Long+"\\n\\n"), os.ModePerm)
			}
			if err != nil {
				return fmt.Errorf("error writing: %w", err)
			}
			return nil
'''],'documentation where a page other than the last cannot be written','the command succeeds although pages are missing',
 sh='''
mkdir -p d/goledger_config.md ok
touch main.ledger
gl docs --type markdown --dir ok || exit 3
! gl docs --type markdown --dir d
''')
seed('b33','C25',['cmd/utils/json.go','''	b, err := ioutil.ReadAll(fh)
	if err != nil {
		return fmt.Errorf("failed reading from %s: %v", file, err)
	}

	// Unmarshal JSON bytes
	err = json.Unmarshal(b, data)
	if err != nil {
''','''	err = json.NewDecoder(fh).Decode(data)
	if err != nil {
''','cmd/utils/json.go','''	"io/ioutil"
''',''],'a state file, damaged behind its first JSON value (a compressed one with a wrong checksum)','a damaged state is loaded as if it were whole',
 go=('cmd/utils','''
package utils

import (
	"io/ioutil"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "s.json.gz")
	if err := SaveToFile(f, map[string]int{"a": 1}); err != nil {
		t.Fatal(err)
	}
	v := make(map[string]int)
	if err := LoadFromFile(f, &v); err != nil || v["a"] != 1 {
		t.Fatal(err, v)
	}
	b, err := ioutil.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	b[len(b)-6] ^= 0x5a // checksum
	if err := ioutil.WriteFile(f, b, 0600); err != nil {
		t.Fatal(err)
	}
	if err := LoadFromFile(f, &v); err == nil {
		t.Fatal("damage not noticed")
	}
	f = filepath.Join(t.TempDir(), "s.json")
	if err := ioutil.WriteFile(f, []byte(`{"a":1}}, "b":2}`), 0600); err != nil {
		t.Fatal(err)
	}
	if err := LoadFromFile(f, &v); err == nil {
		t.Fatal("damage not noticed")
	}
}
'''))
seed('b34','C25',['cmd/utils/json.go','''		if os.IsNotExist(err) {
			return nil
		}
		return fmt.Errorf("failed opening %s: %v", file, err)
''','''		if _, ok := err.(*os.PathError); ok {
			return nil
		}
		return fmt.Errorf("failed opening %s: %v", file, err)
'''],'a state file that is there but cannot be opened','the state counts as empty and all that was downloaded before is replaced',
 go=('cmd/utils','''
package utils

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "s.json")
	var v interface{}
	if err := LoadFromFile(f, &v); err != nil {
		t.Fatal(err)
	}
	if err := os.Symlink(f, f); err != nil { // a link to itself
		t.Fatal(err)
	}
	if err := LoadFromFile(f, &v); err == nil {
		t.Fatal("cannot be opened, but no error")
	}
}
'''))
STUB='''
package download

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"net/http"
	"net/url"
	"path/filepath"
	"strings"
	"testing"
	"time"
	"errors"
	"os"
	"golang.org/x/oauth2"
	"github.com/mescanne/goledger/cmd/utils"
)

var _ = fmt.Sprint
var _ = url.Parse
var _ = filepath.Join
var _ = strings.Contains
var _ = time.Now
var _ = errors.New
var _ = os.Exit
var _ oauth2.Token
var _ = utils.LoadFromFile
var _ io.Reader = &bytes.Buffer{}

type stub func(r *http.Request) (int, string)

func (s stub) RoundTrip(r *http.Request) (*http.Response, error) {
	code, body := s(r)
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Header: make(http.Header),
		Body: ioutil.NopCloser(strings.NewReader(body)), Request: r}, nil
}
'''
seed('b35','C26',['cmd/download/nordigen.go','''		for i, b := range resp.Transactions.Booked {
			_, ok := acct.Transactions[b.Id]
''','''		for _, b := range resp.Transactions.Booked {
			_, ok := acct.Transactions[b.Id]
''','cmd/download/nordigen.go','''= &resp.Transactions.Booked[i]
''','''= &b
'''],'two transactions in a response','every transaction of the response is stored as the last of them',
 go=('cmd/download',STUB+'''
func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "s.json")
	c := &NordigenClient{file: f, config: &NordigenDownload{}, data: &NordigenData{Requisition: &Requisition{Id: "r"}},
		client: &http.Client{Transport: stub(func(r *http.Request) (int, string) {
			switch {
			case strings.Contains(r.URL.Path, "/requisitions/"):
				return 200, `{"id":"r","link":"l","accounts":["a"]}`
			case strings.HasSuffix(r.URL.Path, "/transactions"):
				return 200, `{"transactions":{"booked":[{"transactionId":"1","x":"p"},{"transactionId":"2","x":"q"}],"pending":[]}}`
			}
			return 200, `{}`
		})}}
	if err := c.Sync(); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Contains(b, []byte(`"p"`)) || !bytes.Contains(b, []byte(`"q"`)) {
		t.Fatal(string(b))
	}
}
'''))
seed('b36','C26',['cmd/download/starling.go','''			newItems++
		} else if fmt.Sprintf("%v", curr) != fmt.Sprintf("%v", item) {
			updatedItems++
		}
		feed[item.FeedItemUid] = item
''','''			newItems++
		} else if item.UpdatedAt <= curr.UpdatedAt {
			continue
		} else {
			updatedItems++
		}
		feed[item.FeedItemUid] = item
'''],'an item that the bank changed without changing when it was updated','the item stored stays as it was',
 go=('cmd/download',STUB+'''
func TestDemo(t *testing.T) {
	note := "one"
	f := filepath.Join(t.TempDir(), "s.json")
	c := &StarlingClient{file: f, config: &StarlingDownload{}, data: &StarlingData{},
		client: &http.Client{Transport: stub(func(r *http.Request) (int, string) {
			switch {
			case strings.HasSuffix(r.URL.Path, "/accounts"):
				return 200, `{"accounts":[{"accountUid":"a","defaultCategory":"c","createdAt":"2020-01-01T00:00:00Z"}]}`
			case strings.Contains(r.URL.Path, "/feed/"):
				return 200, `{"feedItems":[{"feedItemUid":"i","transactionTime":"2020-02-01T00:00:00Z","updatedAt":"2020-02-01T00:00:00Z","note":"`+note+`"}]}`
			case strings.HasSuffix(r.URL.Path, "/spaces"):
				return 200, `{"savingsGoals":[],"spendingSpaces":[]}`
			case strings.HasSuffix(r.URL.Path, "/payees"):
				return 200, `{"payees":[]}`
			}
			return 200, `{}`
		})}}
	for _, note = range []string{"one", "two"} {
		if err := c.Sync(); err != nil {
			t.Fatal(err)
		}
		b, err := ioutil.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		if !bytes.Contains(b, []byte(`"`+note+`"`)) {
			t.Fatal(note, string(b))
		}
	}
}
'''))
seed('b37','C27',['cmd/download/net.go','''	if resp.StatusCode != http.StatusOK {
		return fmt.Errorf("url %v''','''	if resp.StatusCode >= 400 && resp.StatusCode < 500 {
		return fmt.Errorf("url %v'''],'a bank that answers 503 with a body that happens to decode','a failure of the bank counts as an empty answer',
 go=('cmd/download',STUB+'''
func TestDemo(t *testing.T) {
	code := 200
	cl := &http.Client{Transport: stub(func(r *http.Request) (int, string) { return code, `{"transactions":[]}` })}
	if err := fetchFromURL(cl, "https://x.test/", &Transactions{}); err != nil {
		t.Fatal(err)
	}
	for _, code = range []int{500, 503, 404, 304} {
		if err := fetchFromURL(cl, "https://x.test/", &Transactions{}); err == nil {
			t.Fatal("no error", code)
		}
	}
}
'''))
seed('b38','C27',['cmd/download/net.go','''	resp, err := client.Get(url)
	if err != nil {
		return fmt.Errorf("url %v: %w", url, err)
	}

	defer resp.Body.Close()
	bodyBytes, err := ioutil.ReadAll(resp.Body)
	if err != nil {
		return fmt.Errorf("reading url %v: %w", url, err)
	}

''','''	resp, err := client.Get(url)
	if err != nil {
		return fmt.Errorf("url %v: %w", url, err)
	}

	defer resp.Body.Close()
	bodyBytes, err := ioutil.ReadAll(resp.Body)
	if err != nil && len(bodyBytes) == 0 {
		return fmt.Errorf("reading url %v: %w", url, err)
	}

'''],'a connection that breaks after a whole JSON value was received','a response that was cut off counts as whole',
 go=('cmd/download',STUB+'''
type broken struct{ r io.Reader }

func (b *broken) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

type brokenTrip struct{}

func (brokenTrip) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: make(http.Header),
		Body: ioutil.NopCloser(&broken{strings.NewReader(`{"transactions":[]}`)}), Request: r}, nil
}

func TestDemo(t *testing.T) {
	if err := fetchFromURL(&http.Client{Transport: brokenTrip{}}, "https://x.test/", &Transactions{}); err == nil {
		t.Fatal("no error")
	}
}
'''))
seed('b39','C28',['cmd/download/nordigen.go','''	if c.data.Token == nil || time.Now().After(c.data.Token.AccessExpires) {
''','''	if c.data.Token == nil || time.Now().After(c.data.Token.AccessExpires) && time.Now().After(c.data.Token.RefreshExpires) {
'''],'a token that expired and can still be refreshed','requests are made with the token that expired',
 go=('cmd/download',STUB+'''
func TestDemo(t *testing.T) {
	asked := false
	http.DefaultTransport = stub(func(r *http.Request) (int, string) {
		asked = true
		return 200, `{"access":"new","access_expires":3600,"refresh":"r2","refresh_expires":7200}`
	})
	c := &NordigenClient{file: filepath.Join(t.TempDir(), "s.json"), config: &NordigenDownload{}, data: &NordigenData{
		Token: &NordigenToken{Access: "old", AccessExpires: time.Now().Add(-time.Hour), Refresh: "r", RefreshExpires: time.Now().Add(time.Hour)}}}
	tok, err := c.Token()
	if err == nil && (!asked || tok.AccessToken == "old") {
		t.Fatal("token that expired", tok)
	}
}
'''))
seed('b40','C28',['cmd/download/monzo.go','''		if istate != state {
''','''		if istate != "" && istate != state {
'''],'somebody else who sends a code with an empty state to the local port','a code that belongs to another request is exchanged for a token',
 go=('cmd/download',STUB+'''
func TestDemo(t *testing.T) {
	asked := false
	http.DefaultTransport = stub(func(r *http.Request) (int, string) {
		asked = true
		return 400, `{}`
	})
	own := &http.Client{Transport: &http.Transport{}}
	go func() {
		for i := 0; i < 100; i++ {
			time.Sleep(50 * time.Millisecond)
			if _, err := own.Get("http://127.0.0.1:43219/?code=x&state="); err == nil || strings.Contains(err.Error(), "EOF") {
				return
			}
		}
	}()
	m := &MonzoDownload{Port: 43219}
	if _, err := m.NewMonzoClient(filepath.Join(t.TempDir(), "s.json")); err == nil || asked {
		t.Fatal("code of another request used", err)
	}
}
'''))
seed('b41','C29',['cmd/download/nordigen.go','''			return nil, fmt.Errorf("failed fetching new token: %w", err)
''','''			return nil, fmt.Errorf("failed fetching new token (%v): %w", params, err)
'''],'a bank that does not give a token','the error that is printed contains the configured secret',
 go=('cmd/download',STUB+'''
func TestDemo(t *testing.T) {
	http.DefaultTransport = stub(func(r *http.Request) (int, string) { return 401, `{"detail":"no"}` })
	c := &NordigenClient{config: &NordigenDownload{ClientID: "id", ClientSecret: "hush-hush"}, data: &NordigenData{}}
	_, err := c.Token()
	if err == nil || strings.Contains(err.Error(), "hush-hush") {
		t.Fatal(err)
	}
}
'''))
seed('b42','C30',['cmd/download/nordigen.go','''	Transactions map[string]*NordigenTransaction
''','''	Transactions map[string]NordigenTransaction
''','cmd/download/nordigen.go','''make(map[string]*NordigenTransaction)''','''make(map[string]NordigenTransaction)''',
'cmd/download/nordigen.go','''		for i, b := range resp.Transactions.Booked {
''','''		for _, b := range resp.Transactions.Booked {
''','cmd/download/nordigen.go','''= &resp.Transactions.Booked[i]
''','''= b
'''],'a state that was saved and is loaded again','the way a transaction is written (for pointers) is not that in which it is read',
 go=('cmd/download',STUB+'''
func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "s.json")
	c := &NordigenClient{file: f, config: &NordigenDownload{}, data: &NordigenData{Requisition: &Requisition{Id: "r"}},
		client: &http.Client{Transport: stub(func(r *http.Request) (int, string) {
			switch {
			case strings.Contains(r.URL.Path, "/requisitions/"):
				return 200, `{"id":"r","link":"l","accounts":["a"]}`
			case strings.HasSuffix(r.URL.Path, "/transactions"):
				return 200, `{"transactions":{"booked":[{"transactionId":"1","x":"p"}],"pending":[]}}`
			}
			return 200, `{}`
		})}}
	if err := c.Sync(); err != nil {
		t.Fatal(err)
	}
	var d NordigenData
	if err := utils.LoadFromFile(f, &d); err != nil {
		t.Fatal(err)
	}
	b, _ := ioutil.ReadFile(f)
	if !bytes.Contains(b, []byte(`"transactionId"`)) || bytes.Contains(b, []byte(`"Data"`)) {
		t.Fatal(string(b))
	}
}
'''))
seed('b43','C30',['cmd/download/starling.go','''	if t.UpdatedAt, err = utils.GetStringValue(t.Data, "updatedAt"); err != nil {
		return err
	}
	return nil
''','''	if t.UpdatedAt, err = utils.GetStringValue(t.Data, "updatedAt"); err != nil {
		t.UpdatedAt = t.TransactionTime
	}
	return nil
'''],'an item without the time it was updated','an item that is not understood is kept with a time that the bank did not give',
 go=('cmd/download',STUB+'''
func TestDemo(t *testing.T) {
	var i FeedItem
	if err := i.UnmarshalJSON([]byte(`{"feedItemUid":"i","transactionTime":"2020-02-01T00:00:00Z","updatedAt":"2020-02-01T00:00:00Z"}`)); err != nil {
		t.Fatal(err)
	}
	var j FeedItem
	if err := j.UnmarshalJSON([]byte(`{"feedItemUid":"i","transactionTime":"2020-02-01T00:00:00Z"}`)); err == nil {
		t.Fatal("no error", j.UpdatedAt)
	}
}
'''))
seed('b44','C31',['book/book.go','''	for _, p := range b.post {
		if re.MatchString(p.GetAccount()) {
			lbal''','''	for _, p := range b.post {
		if re.MatchString(p.GetAccount()) || p.note != "" && re.MatchString(p.note) {
			lbal'''],'a pattern that matches the note of a posting but not its account','accounts are listed whose full name does not match',
 sh='''
cat > main.ledger <<E
2020/01/01 a
  Assets:Bank  EUR 10.00 ; Banking
  Assets:Cash  EUR -10.00
E
gl --ccy EUR accts --all '^Bank' > out || exit 3
! grep -q Assets:Bank out
''')
seed('b45','C31',['book/book.go','''	return b.ccy
''','''	r := make(map[string]int)
	for ccy, dec := range b.ccy {
		if dec > 0 {
			r[ccy] = dec
		}
	}
	return r
'''],'a currency that is used without decimals','it is left out of the list, and its amounts are shown with two decimals',
 sh='''
cat > main.ledger <<E
2020/01/01 a
  Assets:Bank  JPY 10
  Assets:Cash  JPY -10
2020/01/02 b
  Assets:Bank  EUR 10.00
  Assets:Cash  EUR -10.00
E
gl --ccy EUR ccy > out || exit 3
grep -q '^JPY => 0' out
''')
seed('b46','C31',['cmd/accounts/accounts.go','''			regex = args[0]
''','''			regex = "^" + args[0]
'''],'a pattern that matches only later in the name','accounts that match are not listed unless they do at the start',
 sh='''
cat > main.ledger <<E
2020/01/01 a
  Assets:Bank  EUR 10.00
  Assets:Cash  EUR -10.00
E
gl --ccy EUR accts 'Bank' > out || exit 3
grep -q Assets:Bank out
''')
seed('b47','C20',['cmd/app/print.go','''			if !shrinkToTerm[j] {
				continue
			}

			// Shrink''','''			if !shrinkToTerm[j] && colWidths[j] <= termWidth/8 {
				continue
			}

			// Shrink'''],'a terminal narrower than the table, and a wide column of amounts','amounts are cut to make the table fit the terminal',
 go=('cmd/app','''
package app

import (
	"bytes"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	var out bytes.Buffer
	b := &BookPrinter{w: &out}
	termWidth, termHeight = 40, 100
	b.PrintColumns([][]ColumnValue{
		{ColumnString(strings.Repeat("p", 40)), ColumnRightString("1234567.89")},
		{ColumnString(strings.Repeat("p", 30)), ColumnRightString("9.89")},
	}, []bool{true, false})
	if !strings.Contains(out.String(), " 1234567.89") {
		t.Fatal(out.String())
	}
}
'''))
seed('b48','C20',['cmd/app/print.go','''		// If it's not printable or a tab (convert to a space), we skip it.
		if !unicode.IsPrint(r) && r != '\\t' {
			continue
		}

		// Another character
		count++
	}

	return count
''','''		// If it's not printable, we skip it.
		if !unicode.IsPrint(r) {
			continue
		}

		// Another character
		count++
	}

	return count
'''],'the longest text of a column has a tab','a tab is not counted for the width of a column but takes a place in it, so that the end of the text is cut',
 go=('cmd/app','''
package app

import (
	"bytes"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	var out bytes.Buffer
	b := &BookPrinter{w: &out}
	termWidth, termHeight = -1, 100
	b.PrintColumns([][]ColumnValue{{ColumnString("a\\tlong payee"), ColumnRightString("1.00")}}, []bool{true, false})
	if !strings.Contains(out.String(), "long payee 1.00") {
		t.Fatal(out.String())
	}
}
'''))
seed('b49','C20',['cmd/app/print.go','''	dec, ok := b.decs[symbol]
	if !ok {
		dec = 2
	}
''','''	dec, ok := b.decs[symbol]
	if !ok || dec > 6 {
		dec = 2
	}
'''],'a currency with more than six decimals','amounts are shown with two decimals only',
 sh='''
cat > main.ledger <<E
2020/01/01 a
  Assets:Bank  BTC 0.00001234
  Assets:Cash  BTC -0.00001234
E
gl --ccy BTC report --sum=false --convert=false > out || exit 3
grep -q '0.00001234' out
''')
SUMHEAD=HEAD.replace('"math/big"','"math/big"\n\t"regexp"')+"\nvar _ = regexp.MustCompile\n"+'''
func amountIn(tr Transaction, acct, ccy string) *big.Rat {
	for _, p := range tr {
		if p.GetAccount() == acct && p.GetCCY() == ccy {
			return p.GetAmount()
		}
	}
	return nil
}

func is(t *testing.T, tr Transaction, acct, ccy string, want int64) {
	t.Helper()
	if v := amountIn(tr, acct, ccy); v == nil || v.Cmp(big.NewRat(want, 1)) != 0 {
		t.Fatalf("%s %s has %v, expected %d", acct, ccy, v, want)
	}
}
'''
seed('b50','C38',['book/book_accum.go','''				lkey := k + divider
''','''				lkey := k
'''],'an account whose name starts with the whole name of a group, without being under it','its amounts are counted in the group too',
 go=('book',SUMHEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	b.NewTransaction(20200101, "a", "")
	b.AddPosting("Assets:Bank:A", "EUR", big.NewRat(1, 1), "")
	b.AddPosting("Assets:Bank:B", "EUR", big.NewRat(2, 1), "")
	b.AddPosting("Assets:Bankier", "EUR", big.NewRat(4, 1), "")
	b.AddPosting("Income", "EUR", big.NewRat(-7, 1), "")
	bk, err := b.BuildBook()
	if err != nil {
		t.Fatal(err)
	}
	tr := bk.Accumulate("EUR", ":", nil, "")
	is(t, tr[0], "Assets:Bank", "EUR", 3)
	is(t, tr[0], "Assets", "EUR", 7)
}
'''))
seed('b51','C38',['book/book_accum.go','''			(acctList[scanIdx].acct == posts[postIdx].GetAccount() && acctList[scanIdx].ccy == posts[postIdx].ccy) {
''','''			(acctList[scanIdx].acct == posts[postIdx].GetAccount()) {
'''],'a transaction has a posting of an account in one currency, another of the same account in a currency before it','the zero amount of the account in the other currency is left out',
 go=('book',SUMHEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	b.NewTransaction(20200101, "a", "")
	b.AddPosting("Assets", "EUR", big.NewRat(1, 1), "")
	b.AddPosting("Income", "EUR", big.NewRat(-1, 1), "")
	b.NewTransaction(20200102, "b", "")
	b.AddPosting("Assets", "USD", big.NewRat(1, 1), "")
	b.AddPosting("Income", "USD", big.NewRat(-1, 1), "")
	bk, err := b.BuildBook()
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan []Transaction)
	go func() { done <- bk.Accumulate("GBP", ":", nil, "") }()
	tr := <-done
	is(t, tr[0], "Assets", "USD", 0)
	is(t, tr[1], "Assets", "EUR", 0)
}
'''))
seed('b52','C38',['book/book_accum.go','''			nval := big.NewRat(0, 1)
			nval.Neg(p.val)
			p.val = nval
''','''			p.val.Neg(p.val)
'''],'the book is used again after a summary with accounts shown with the sign turned','the amounts of the book itself have their sign turned',
 go=('book',SUMHEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	b.NewTransaction(20200101, "a", "")
	b.AddPosting("Assets", "EUR", big.NewRat(1, 1), "")
	b.AddPosting("Income", "EUR", big.NewRat(-1, 1), "")
	bk, err := b.BuildBook()
	if err != nil {
		t.Fatal(err)
	}
	re := regexp.MustCompile("^Income$")
	is(t, bk.Accumulate("EUR", ":", re, "")[0], "Income", "EUR", 1)
	is(t, bk.Accumulate("EUR", ":", re, "")[0], "Income", "EUR", 1)
}
'''.replace('x','x')))
seed('b53','C38',['book/book_accum.go','''	for ; i < len(left) && i < len(right); i++ {
		if left[i] != right[i] {
			break
		}
''','''	for ; i < len(left) && i < len(right); i++ {
		if left[i] != right[i] && (left[i] < 0x80 || right[i] < 0x80) {
			break
		}
'''],'two accounts under different groups that differ in a letter beyond ASCII','they are taken to be under one group',
 go=('book',SUMHEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	b.NewTransaction(20200101, "a", "")
	b.AddPosting("Bänk:A", "EUR", big.NewRat(1, 1), "")
	b.AddPosting("Bönk:B", "EUR", big.NewRat(2, 1), "")
	b.AddPosting("Income", "EUR", big.NewRat(-3, 1), "")
	bk, err := b.BuildBook()
	if err != nil {
		t.Fatal(err)
	}
	if n := len(bk.Accumulate("EUR", ":", nil, "")[0]); n != 3 {
		t.Fatal("a group that is none", n)
	}
}
'''))
REGHEAD=SUMHEAD
seed('b54','C35',['book/registry.go','''					Balance:        big.NewRat(0, 1).Set(bal),
''','''					Balance:        bal,
'''],'a register with more than one entry in a currency','every entry shows the last balance of its currency',
 go=('book',REGHEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	b.NewTransaction(20200101, "a", "")
	b.AddPosting("Bank", "EUR", big.NewRat(10, 1), "")
	b.AddPosting("Income", "EUR", big.NewRat(-10, 1), "")
	b.NewTransaction(20200102, "b", "")
	b.AddPosting("Bank", "EUR", big.NewRat(5, 1), "")
	b.AddPosting("Income", "EUR", big.NewRat(-5, 1), "")
	bk, err := b.BuildBook()
	if err != nil {
		t.Fatal(err)
	}
	rep := bk.ExtractRegister("EUR", regexp.MustCompile("^Bank$"), false)
	if len(rep) != 2 || rep[0].Balance.Cmp(big.NewRat(10, 1)) != 0 || rep[1].Balance.Cmp(big.NewRat(15, 1)) != 0 {
		t.Fatalf("%d entries, %v", len(rep), rep[0].Balance)
	}
}
'''))
seed('b55','C35',['book/registry.go','''				if tp.GetAmount().Sign() == p.GetAmount().Sign() {
					continue
				}
''','''				if tp.GetAmount().Sign() == p.GetAmount().Sign() && len(trans) == 2 {
					continue
				}
'''],'a transaction of more than two postings where two accounts move the same way','accounts that move the same way are named as counter accounts and the shares are wrong',
 go=('book',REGHEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	b.NewTransaction(20200101, "a", "")
	b.AddPosting("Bank", "EUR", big.NewRat(-30, 1), "")
	b.AddPosting("Cash", "EUR", big.NewRat(-10, 1), "")
	b.AddPosting("Food", "EUR", big.NewRat(40, 1), "")
	bk, err := b.BuildBook()
	if err != nil {
		t.Fatal(err)
	}
	rep := bk.ExtractRegister("EUR", regexp.MustCompile("^Bank$"), true)
	if len(rep) != 1 || rep[0].CounterAccount != "Food" || rep[0].Amount.Cmp(big.NewRat(-30, 1)) != 0 {
		t.Fatalf("%d entries, %v", len(rep), rep[0])
	}
}
'''))
seed('b56','C35',['book/transaction.go','''		if lastAccount == -1 || t[lastAccount].acct != t[i].acct {
			lastAccount = i
''','''		if lastAccount == -1 || t[lastAccount].acct != t[i].acct || t[lastAccount].ccy == t[i].ccy {
			lastAccount = i
''','book/transaction.go','''		if (i-lastAccount) == 2 && (t[i-1].val.Sign()+t[i-2].val.Sign()) == 0 {

			// Extract''','''		if i >= 2 && (t[i-1].val.Sign()+t[i-2].val.Sign()) == 0 {

			// Extract'''],'a transaction where neighbouring postings of different accounts have the two currencies in opposite directions','a price is made up from amounts of two different accounts',
 go=('book',REGHEAD+'''
func TestDemo(t *testing.T) {
	tr := Transaction{
		Posting{acct: "A", ccy: "EUR", val: big.NewRat(-5, 1)},
		Posting{acct: "A", ccy: "USD", val: big.NewRat(10, 1)},
		Posting{acct: "B", ccy: "EUR", val: big.NewRat(-7, 1)},
		Posting{acct: "C", ccy: "EUR", val: big.NewRat(12, 1)},
		Posting{acct: "C", ccy: "GBP", val: big.NewRat(-3, 1)},
		Posting{acct: "D", ccy: "USD", val: big.NewRat(-10, 1)},
	}
	if r := tr.InferRate("USD", "GBP"); r != nil {
		t.Fatal("price of GBP", r)
	}
	if r := tr.InferRate("EUR", "USD"); r == nil || r.Cmp(big.NewRat(1, 2)) != 0 {
		t.Fatal("price of USD", r)
	}
	tr = Transaction{
		Posting{acct: "B", ccy: "EUR", val: big.NewRat(-7, 1)},
		Posting{acct: "C", ccy: "USD", val: big.NewRat(12, 1)},
	}
	if r := tr.InferRate("EUR", "USD"); r != nil {
		t.Fatal("price of USD across accounts", r)
	}
}
'''))
seed('b57','C35',['cmd/register/show_register.go','''	if count < 0 && len(report) > (-1*count) {
''','''	if count < 0 && len(report) > (-2*count) {
'''],'a negative count of at least half the number of entries','all of the entries are shown',
 sh='''cat > main.ledger <<E
2020/01/01 a
  Bank  EUR 1.00
  Income  EUR -1.00

2020/01/02 b
  Bank  EUR 2.00
  Income  EUR -2.00

2020/01/03 c
  Bank  EUR 3.00
  Income  EUR -3.00
E
gl --ccy EUR register --type CSV --combined --count=-2 '^Bank$' > out || exit 3
test "$(grep -c ',Bank,Income,' out)" = 2
''')
seed('b58','C34',['book/book_reclassify.go','''		if trans[0].GetAccount() == refacct {
			cacct = trans[1].GetAccount()
		} else if trans[1].GetAccount() == refacct {
			cacct = trans[0].GetAccount()
		} else {
			continue
		}
''','''		if trans[0].GetAccount() == refacct {
			cacct = trans[1].GetAccount()
		} else {
			cacct = trans[0].GetAccount()
		}
'''],'transactions of a payee between two other accounts are more common than those with the account','their account is chosen although the account imported to is not in them',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	mk := func(f func(b *Builder)) *Book {
		b := NewBookBuilder()
		f(b)
		bk, err := b.BuildBook()
		if err != nil {
			t.Fatal(err)
		}
		return bk
	}
	main := mk(func(b *Builder) {
		for d := Date(20200101); d < 20200105; d++ {
			b.NewTransaction(d, "shop", "")
			b.AddPosting("Cash", "EUR", big.NewRat(-1, 1), "")
			b.AddPosting("Food", "EUR", big.NewRat(1, 1), "")
		}
		b.NewTransaction(20200106, "shop", "")
		b.AddPosting("Bank", "EUR", big.NewRat(-1, 1), "")
		b.AddPosting("Home", "EUR", big.NewRat(1, 1), "")
	})
	imp := mk(func(b *Builder) {
		b.NewTransaction(20200201, "shop", "")
		b.AddPosting("Bank", "EUR", big.NewRat(-1, 1), "")
		b.AddPosting("Unknown", "EUR", big.NewRat(1, 1), "")
	})
	imp.ReclassifyByAccount(main, "Bank", func(a, b string) float64 {
		if a == b {
			return 1
		}
		return 0
	})
	for _, p := range imp.Transactions()[0] {
		if p.GetAccount() != "Bank" && p.GetAccount() != "Home" {
			t.Fatal(p.GetAccount())
		}
	}
}
'''))
seed('b59','C34',['book/book_reclassify.go','''			d := dist(trans.GetPayee(), p)
''','''			d := float64(int(dist(trans.GetPayee(), p)*10)) / 10
'''],'two payees alike to the same tenth, the first by name less so','the account of the payee that is less alike is taken',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	main := NewBookBuilder()
	for i, a := range []string{"Zoo", "Food"} {
		main.NewTransaction(Date(20200101+i), []string{"shop a", "shop"}[i], "")
		main.AddPosting("Bank", "EUR", big.NewRat(-1, 1), "")
		main.AddPosting(a, "EUR", big.NewRat(1, 1), "")
	}
	mb, err := main.BuildBook()
	if err != nil {
		t.Fatal(err)
	}
	b := NewBookBuilder()
	b.NewTransaction(20200201, "shop", "")
	b.AddPosting("Bank", "EUR", big.NewRat(-1, 1), "")
	b.AddPosting("Unknown", "EUR", big.NewRat(1, 1), "")
	imp, err := b.BuildBook()
	if err != nil {
		t.Fatal(err)
	}
	imp.ReclassifyByAccount(mb, "Bank", func(a, b string) float64 {
		if b == "shop a" {
			return 0.98
		}
		return 0.94
	})
	for _, p := range imp.Transactions()[0] {
		if p.GetAccount() != "Bank" && p.GetAccount() != "Zoo" {
			t.Fatal(p.GetAccount())
		}
	}
}
'''))
seed('b60','C32',['book/price.go','''		return big.NewRat(0, 1).Inv(r), pt
''','''		return r.Inv(r), pt
'''],'a price is looked up against its direction, on its own day, and then looked up again','looking up a price turns the price of the book around',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	b.AddPrice(20200101, "GBP", "EUR", big.NewRat(5, 4))
	bk, err := b.BuildBook()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		if p, _ := bk.GetPrice(20200101, "EUR", "GBP"); p.Cmp(big.NewRat(4, 5)) != 0 {
			t.Fatal(i, p)
		}
		if p, _ := bk.GetPrice(20200101, "GBP", "EUR"); p.Cmp(big.NewRat(5, 4)) != 0 {
			t.Fatal(i, p)
		}
	}
}
'''))
seed('b61','C32',['book/book.go','''	newp := make([]Posting, len(b.post), len(b.post))
''','''	newp := b.post[:len(b.post):len(b.post)]
'''],'a book is copied, and the copy then changed in place','changing a copy of a book changes the book',
 go=('book',HEAD+'''
func TestDemo(t *testing.T) {
	b := NewBookBuilder()
	b.NewTransaction(20200101, "shop", "")
	b.AddPosting("Cash", "EUR", big.NewRat(-1, 1), "")
	b.AddPosting("Food", "EUR", big.NewRat(1, 1), "")
	bk, err := b.BuildBook()
	if err != nil {
		t.Fatal(err)
	}
	d := bk.Duplicate()
	d.MapAccount(func(a string) string { return "X" + a })
	for _, tr := range bk.Transactions() {
		for _, p := range tr {
			if a := p.GetAccount(); a != "Cash" && a != "Food" {
				t.Fatal(a)
			}
		}
	}
	d = bk.Duplicate()
	d.MapAmount(func(_ Date, ccy string) (*big.Rat, string) { return big.NewRat(2, 1), ccy })
	for _, tr := range bk.Transactions() {
		for _, p := range tr {
			if v := p.GetAmount(); v.Cmp(big.NewRat(1, 1)) != 0 && v.Cmp(big.NewRat(-1, 1)) != 0 {
				t.Fatal(v)
			}
		}
	}
}
'''))
seed('b62','C39',['cmd/utils/types.go','''func (e *Enum) Set(value string) error {
	for _, v := range e.ValidValues {
		if strings.EqualFold(v, value) {
			*e.Value = v
''','''func (e *Enum) Set(value string) error {
	for _, v := range e.ValidValues {
		if strings.EqualFold(v, value) {
			*e.Value = value
'''],'a kind of export written in other letter case','the export is made as another kind',
 sh='''
printf '2020/01/01 shop\\n  Assets:Bank  EUR -10.00\\n  Food  EUR 10.00\\n' > main.ledger
gl export --type json > out || exit 3
grep -q 'Food' out && ! grep -q '^2020' out
''')
seed('b63','C39',['cmd/config.go','''			if !os.IsNotExist(err) {
''','''			if os.IsPermission(err) {
'''],'a configuration file that cannot be read for another reason than permissions','another configuration is used without an error',
 sh='''
printf '2020/01/01 shop\\n  Assets:Bank  EUR -10.00\\n  Food  EUR 10.00\\n' > main.ledger
mkdir -p h/goledger/goledger.toml
printf 'verbose = false\\n' > h/goledger.toml
unset GOLEDGER_CONF
! HOME="$t/h" XDG_CONFIG_HOME="$t/h" gl export --type ledger > out 2>&1
''')
seed('b64','C39',['cmd/utils/cli_config.go','''	cfg.Params = make(map[string]string)
''','''	if len(cfg.Params) == 0 {
		cfg.Params = make(map[string]string)
	}
'''],'the format of an import given twice','settings of the first remain',
 go=('cmd/utils','''package utils

import "testing"

func TestDemo(t *testing.T) {
	c := &CLIConfig{}
	if err := c.Set("csv:header,delim=x"); err != nil {
		t.Fatal(err)
	}
	if err := c.Set("csv:delim=y"); err != nil {
		t.Fatal(err)
	}
	if h, _ := c.GetBoolDefault("header", false); h || c.GetStringDefault("delim", "") != "y" {
		t.Fatal(c.Params)
	}
}
'''))
seed('b65','C39',['cmd/register/register.go','StringVar(&reg.EndDate, "asof", reg.EndDate, "end date")','StringVar(&reg.EndDate, "asof", reg.BeginDate, "end date")'],
 'a first date configured for registers, and none given','the register ends on the day it begins',
 sh='''
printf '2020/01/01 one\\n  Assets:Bank  EUR -10.00\\n  Food  EUR 10.00\\n2020/03/01 two\\n  Assets:Bank  EUR -5.00\\n  Food  EUR 5.00\\n' > main.ledger
printf '[register]\\nbegindate = "2020-01-01"\\n' > c.toml
GOLEDGER_CONF="$t/c.toml" gl --ccy EUR register --type CSV Food > out || exit 3
grep -q one out && grep -q two out
''')
seed('b66','C19',['cmd/export/ledger.go','''	for _, pair := range bk.GetPricePairs() {
		pl := bk.GetPriceList(pair.Unit, pair.CCY)
''','''	for pair, pl := range bk.PriceLists() {
''','book/book.go','''func (b *Book) GetPriceList(''','''// PriceLists returns the prices of every pair.
func (b *Book) PriceLists() map[PricePair]PriceList {
	return b.prices.data
}

func (b *Book) GetPriceList('''],'an export of a ledger with prices of several currencies','the prices come in another order each time',
 sh='''
{ for u in A B C D E F G H; do echo "P 2020-01-01 $u""AA EUR 2.00"; done; printf '\\n2020/01/01 shop\\n  Assets:Bank  EUR -10.00\\n  Food  EUR 10.00\\n'; } > main.ledger
gl export --type ledger > first || exit 3
grep -q AAA first || exit 3
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do gl export --type ledger > again || exit 3; cmp -s first again || exit 1; done
''')
seed('b67','C19',['book/book_reclassify.go','''		max := 0
		macct := ""
		for cacct, k := range caccts {
''','''		max, enough := 0, 5
		macct := ""
		for cacct, k := range caccts {
			if max >= enough {
				break
			}
'''],'a payee booked at least five times to each of two accounts','which account it is reclassified to changes from run to run',
 go=('book',SUMHEAD+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 60; i++ {
		ref := NewBookBuilder()
		for k := 0; k < 11; k++ {
			ref.NewTransaction(Date(20200101+k), "shop", "")
			to := "Food"
			if k >= 5 {
				to = "Home"
			}
			ref.AddPosting(to, "EUR", big.NewRat(1, 1), "")
			ref.AddPosting("Bank", "EUR", big.NewRat(-1, 1), "")
		}
		rb, err := ref.BuildBook()
		if err != nil {
			t.Fatal(err)
		}
		in := NewBookBuilder()
		in.NewTransaction(Date(20210101), "shop", "")
		in.AddPosting("Other", "EUR", big.NewRat(1, 1), "")
		in.AddPosting("Bank", "EUR", big.NewRat(-1, 1), "")
		b, err := in.BuildBook()
		if err != nil {
			t.Fatal(err)
		}
		b.ReclassifyByAccount(rb, "Bank", func(a, b string) float64 { return 1 })
		for _, p := range b.Transactions()[0] {
			if p.GetAccount() == "Food" || p.GetAccount() == "Other" {
				t.Fatal(p.GetAccount())
			}
		}
	}
}
'''))
seed('b68','C36',['book/date.go','''		day, _ := strconv.Atoi(mat[1])
		month, _ := strconv.Atoi(mat[2])
		year, _ := strconv.Atoi(mat[3])
''','''		year, _ := strconv.Atoi(mat[3])
		month, _ := strconv.Atoi(mat[2])
		day := month
		if month > 12 {
			// written the American way
			month, _ = strconv.Atoi(mat[1])
		} else {
			day, _ = strconv.Atoi(mat[1])
		}
'''],'a date with the year last and a day where the month should be','a date that is not in the calendar is taken for another one instead of being an error',
 sh='''
printf '2020/03/01 shop\\n  Assets:Bank  EUR -10.00\\n  Food  EUR 10.00\\n\\n2020/09/01 shop\\n  Assets:Bank  EUR -20.00\\n  Food  EUR 20.00\\n' > main.ledger
gl export since=25/04/2020 --type ledger > ok || exit 3
grep -q -- -20 ok && ! grep -q -- -10 ok || exit 3
! gl export since=04/25/2020 --type ledger > out 2>&1
''')
seed('b69','C36',['book/date.go','''	daysInYear := 365
	if isLeapYear {
		daysInYear++
	}
''','''	daysInYear := 365
	if year%4 == 3 && (year%100 != 99 || year%400 == 399) {
		daysInYear++
	}
	if month > 1 && year%400 == 399 {
		day--
	}
'''],'a date from March on in a year divisible by four hundred','the part of that year gone by is a day short',
 go=('book','''package book

import "testing"

func TestDemo(t *testing.T) {
	if a, b := GetDate(2000, 3, 1).AsYears(), GetDate(2000, 2, 29).AsYears(); a <= b {
		t.Fatal(a, b)
	}
	if a, b := GetDate(2004, 3, 1).AsYears(), GetDate(2004, 2, 29).AsYears(); a <= b {
		t.Fatal(a, b)
	}
}
'''))
seed('b70','C36',['book/date.go','''		if year*365+leapDays <= days {''','''		if year*365+leapDays < days {'''],'the first day of a year','the date some days later than another cannot be told if it is the first of January',
 go=('book','''package book

import "testing"

func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	for _, y := range []int{1999, 2000, 2001, 2004, 2005} {
		if d := GetDate(y, 12, 31).AddDays(1); d != GetDate(y+1, 1, 1) {
			t.Fatal(y, d)
		}
	}
}
'''))
seed('b71','C33',['book/builder.go','''	rmap := make(map[string]int)
	for _, p := range b.post {
''','''	rmap, last := make(map[string]int), ""
	for _, p := range b.post {
		if key := p.GetCCY() + p.GetPayee(); key == last {
			// written like the one it balances
			continue
		} else {
			last = key
		}
'''],'a transaction whose first posting has fewer decimals than a later one','the currency is shown with too few decimals',
 go=('book',SUMHEAD+'''
func TestDemo(t *testing.T) {
	in := NewBookBuilder()
	in.NewTransaction(Date(20210101), "shop", "")
	in.AddPosting("Bank", "EUR", big.NewRat(-10, 1), "")
	in.AddPosting("Food", "EUR", big.NewRat(9995, 1000), "")
	in.AddPosting("Tax", "EUR", big.NewRat(5, 1000), "")
	b, err := in.BuildBook()
	if err != nil {
		t.Fatal(err)
	}
	if d := b.GetCCYDecimals()["EUR"]; d != 3 {
		t.Fatal(d)
	}
}
'''))
seed('b72','C43',['cmd/utils/cli_file_or_str.go','''	b, err := ioutil.ReadFile(fname)
	if err != nil {''','''	fh, err := os.Open(fname)
	if err != nil {
		return "", fmt.Errorf("reading %s: %w", fname, err)
	}
	defer fh.Close()

	// Code is short, whatever it is that was named
	b, err := ioutil.ReadAll(io.LimitReader(fh, 1<<15))
	if err != nil {''','cmd/utils/cli_file_or_str.go','	"io/ioutil"\n','	"io"\n	"io/ioutil"\n	"os"\n'],'a script in a file of more than 32 kB','the records of the rest of the script are left out without an error',
 sh='''cat > code.py <<'X'
add(date="2020-02-01", desc="first", amt=1, account="A", caccount="B", ccy="EUR")
X
awk 'BEGIN { for (i = 0; i < 8191; i++) print "#  "; }' >> code.py
cat >> code.py <<'X'

add(date="2020-02-02", desc="second", amt=1, account="A", caccount="B", ccy="EUR")
X
printf '2020/01/01 x\\n  A  EUR 1\\n  B  EUR -1\\n' > main.ledger
gl generate --ccy EUR --code file:code.py > out.ledger
grep -q second out.ledger
''')
seed('b74','C43',['script/starlark.go','''		return starlark.None, fmt.Errorf("%w: %s", userError, msg)''','''		if msg != "" || len(kwargs) > 0 {
			return starlark.None, fmt.Errorf("%w: %s", userError, msg)
		}
		return starlark.None, nil'''],'a script that asks to fail with an empty message','the command succeeds with what was added before',
 sh='''printf '2020/01/01 x\\n  A  EUR 1\\n  B  EUR -1\\n' > main.ledger
if gl generate --ccy EUR --code 'error("")' > out.ledger 2>/dev/null; then exit 1; fi
if gl generate --ccy EUR --code 'error(msg="x")' > out.ledger 2>/dev/null; then exit 1; fi
''')
seed('b75','C26',['cmd/download/monzo.go','''			trans, err = m.getTransactions(accountID, since, LIMIT)
		}
''','''			if len(m.data.Transactions) > 0 {
				// what came before is known
				trans, err = m.getTransactions(accountID, since, LIMIT)
			}
		}
'''],'the first download of an account whose whole history the bank refuses','the download fails instead of asking for the last 89 days',
 go=('cmd/download',STUB+'''
func TestDemo(t *testing.T) {
	c := &MonzoClient{file: filepath.Join(t.TempDir(), "s.json"), data: &MonzoData{},
		client: &http.Client{Transport: stub(func(r *http.Request) (int, string) {
			if r.URL.Query().Get("since") == "" {
				return 403, `{"code":"forbidden.verification_required"}`
			}
			return 200, `{"transactions":[{"id":"1","created":"2024-01-02T03:04:05Z"}]}`
		})}}
	if err := c.GetAllTransactions("a"); err != nil {
		t.Fatal(err)
	}
	if len(c.data.Transactions) != 1 {
		t.Fatal(c.data.Transactions)
	}
}
'''))
seed('b76','C05',['loader/parser.go','''	if rr.ch == '*' {
		rr.next()
		_ = rr.consumeWS()
	}
''','''	if rr.ch == '*' || rr.ch == '!' {
		rr.next()
		_ = rr.consumeWS()
	}
'''],'a payee that begins with an exclamation mark','the mark is left out of the payee',
 sh='''printf '2020/01/01 !Club\\n  A  EUR 1.00\\n  B  EUR -1.00\\n' > main.ledger
gl export --type ledger | grep -q '!Club'
''')
seed('b73','C44',['loader/lexer.go','''	if chars < min || chars > max {''','''	if chars < min || chars > max || (chars == 1 && retval == 0) {'''],'a time of a price in an hour, minute or second written as a single 0','the file is refused',
 sh='''printf 'P 2020/01/01 0:0:0 USD EUR 2\\n2020/01/01 x\\n  A  USD 1.00\\n  B  USD -1.00\\n' > main.ledger
gl export --type ledger --ccy EUR
''')
seed('b77','C44',['loader/lexer.go','''	for rr.ch != eof && rr.ch != eol && rr.ch != '"' {''','''	for rr.ch != eof && rr.ch != eol && rr.ch != '"' && !(rr.ch == ';' && buf.Len() == 0) {'''],'a quoted payee that starts with a semicolon','the file is refused',
 sh='''printf '2020/01/01 ";) shop"\\n  A  USD 1.00\\n  B  USD -1.00\\n' > main.ledger
gl export --type ledger --ccy USD
''')
seed('b78','C24',['cmd/app/book_op.go','''regexp.MustCompile("^/([^/]+)/([^/]+)/$")''','''regexp.MustCompile("^/([^/]+)/([[:upper:]]+)/$")'''],'a currency that is renamed to a name that is not all upper case letters, say with $1','a valid renaming of currencies is refused',
 sh='''printf '2020/01/01 x\\n  A  EUR 1\\n  B  EUR -1\\n' > main.ledger
gl transactions 'mapccy=/^EUR$/XBTC/' --ccy EUR > /dev/null && gl transactions 'mapccy=/^(E)UR$/${1}x/' --ccy EUR > /dev/null
''')
seed('b79','C24',['cmd/app/book_op.go','''			if strings.EqualFold(op_act, typ) {''','''			if len(typ) > 5 && strings.EqualFold(op_act, typ) {'''],'the period today, or none: one with a short name','a valid operation is refused',
 sh='''printf '2020/01/01 x\\n  A  EUR 1\\n  B  EUR -1\\n' > main.ledger
gl transactions 'combine=none' --ccy EUR > /dev/null
gl transactions 'combine=today' --ccy EUR > /dev/null
''')
seed('b80','C08',['book/book.go','''	newposts := b.post
	for _, p := range b.post {

		// Skip it if not applicable
		if !re.MatchString(p.GetAccount()) {
			continue
		}

		// Depreciating''','''	if replace_acct == search_acct {
		return fmt.Errorf("account '%s' cannot depreciate into itself", search_acct)
	}
	newposts := b.post
	for _, p := range b.post {
		acct := p.GetAccount()

		// Skip it if not applicable
		if !re.MatchString(acct) {
			continue
		}

		// Depreciating'''],'a spread of an account over its own months (the expression and account the same text)','spreading the postings of an account over months in place is refused',
 sh='''printf '2020/01/01 x\\n  Expense:Insurance  EUR 12\\n  B  EUR -12\\n' > main.ledger
gl transactions 'depreciate=/Expense:Insurance/Expense:Insurance/3/' --ccy EUR > /dev/null
''')
seed('b81','C11',['script/starlark.go','''		neg := (&big.Rat{}).Neg(amt)
''','''		neg := new(big.Rat).Neg(amt)
		if neg.Cmp(amt) == 0 && amount2 == starlark.None {
			return nil, fmt.Errorf("no amount: %s", amt.RatString())
		}
'''],'a record with an amount of zero (a row of a statement that only informs)','a valid record is refused, and with it the whole import',
 sh='''printf '2020/01/01 x\\n  A  EUR 1\\n  B  EUR -1\\n' > main.ledger
gl generate --ccy EUR --code 'add(date="2020-01-02",desc="a",amt=0,ccy="EUR",account="A",caccount="B")' > /dev/null
''')
seed('b82','C22',['script/convert.go','''				if len(rec) > len(hdr) {''','''				if len(rec) > len(hdr) || len(rec[0]) == 0 && len(rec) < 2 {'''],'a CSV file with one column and a header, with a field that is an empty text between quotation marks','a proper file is refused',
 sh='''printf '2020/01/01 x\\n  A  EUR 1\\n  B  EUR -1\\n' > main.ledger
printf 'name\\n""\\nx\\n' > d.csv
gl import --acct A --cacct B --format csv:header=true --ccy EUR --code '[print(r["name"]) for r in data]' d.csv > /dev/null
''')
seed('b83','C38',['cmd/reports/report.go','''regexp.Compile(report.Credit)''','''regexp.Compile("^(?:" + report.Credit + ")")'''],'a credit expression that matches within the name of an account, not at its start','an account that matches the credit expression is shown without its sign turned',
 sh='''printf '2020/01/01 x\\n  Asset:Bank  EUR 25\\n  Liability:Card  EUR -25\\n' > main.ledger
gl transactions --ccy EUR --credit 'Card$' --combineby skip --type Json > out.json || gl transactions --ccy EUR --credit 'Card$' --type Json > out.json
gl transactions --ccy EUR --credit '^Liability:Card$' --type Json > ref.json
cmp out.json ref.json
''')
seed('b84','C24',['cmd/register/register.go','''	if len(args) > 1 {
		if err = rapp''','''	if ops := len(args) - 1; ops > 0 {
		if ops > 2 && args[0] == args[ops-1] {
			return fmt.Errorf("operation '%s' is given more than once", args[0])
		}
		if err = rapp'''],'a register with three or more operations, the first given again as the last','the operations are refused',
 sh='''printf '2020/01/01 x\\n  A:x  EUR 1\\n  B  EUR -1\\n' > main.ledger
gl register --ccy EUR 'map=/^A:(.*)$/A:$1:$1/' 'map=/B/C/' 'map=/^A:(.*)$/A:$1:$1/' A > /dev/null
''')
