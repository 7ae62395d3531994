package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/mkobetic/coin"
)

// vLedger is a ledger of one commodity with two decimals, described independently of the code under test.
type vLedger struct {
	accts []string // full names
	posts []vEntry // in the order of the transactions
}

type vEntry struct {
	acct   int
	y      int
	m, d   int
	qty    int64 // hundredths
	payee  string
	txTags map[string]string
	tags   map[string]string
	other  int // the account of the opposite posting
}

var vTree = []string{"R", "R:Aa", "R:Aa:Cc", "R:Aa:Dd", "R:Bb", "R:Bb:Ee", "R:Bb:Ee:Ff", "R:Gg", "R:Hh"}

func vDayNo(y, m, d int) int { // days since 1970-01-01
	if m <= 2 {
		y--
		m += 12
	}
	return 365*y + y/4 - y/100 + y/400 + (153*(m-3)+2)/5 + d - 1 - 719468
}

func vCivil(n int) (y, m, d int) {
	n += 719468
	era := n / 146097
	doe := n % 146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	if mp < 10 {
		m = mp + 3
	} else {
		m = mp - 9
		y++
	}
	return
}

func vTagText(t map[string]string) string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := ""
	for _, k := range ks {
		if t[k] == "" {
			out += " #" + k + " "
		} else {
			out += " #" + k + ": " + t[k] + ","
		}
	}
	return out
}

func vSomeTags(r *rand.Rand) map[string]string {
	if r.Intn(3) > 0 {
		return nil
	}
	t := map[string]string{}
	for n := 1 + r.Intn(2); n > 0; n-- {
		t[[]string{"food", "trip", "x"}[r.Intn(3)]] = []string{"", "rome", "oslo"}[r.Intn(3)]
	}
	return t
}

// vMakeLedger: the commodity of every account is CAD.
func vMakeLedger(r *rand.Rand) *vLedger {
	l := &vLedger{accts: vTree[:1+r.Intn(len(vTree))]}
	base := vDayNo(2019+r.Intn(3), 12, 20+r.Intn(12))
	span := []int{3, 15, 40, 400, 1500}[r.Intn(5)]
	n := r.Intn(16)
	for i := 0; i < n; i++ {
		y, m, d := vCivil(base + r.Intn(span))
		e := vEntry{acct: r.Intn(len(l.accts)), y: y, m: m, d: d, payee: []string{"Shop", "Bank", "Post Office", "a,b", "Shop.", "shop"}[r.Intn(6)], txTags: vSomeTags(r), tags: vSomeTags(r)}
		e.qty = int64(r.Intn(2001) - 1000)
		if r.Intn(6) == 0 {
			e.qty *= 1000000007
		}
		if r.Intn(4) == 0 {
			e.other = r.Intn(len(l.accts))
		} else {
			e.other = -1
		}
		l.posts = append(l.posts, e)
	}
	return l
}

func vHundredths(n *big.Int) string {
	s := new(big.Int).Abs(n).String()
	for len(s) < 3 {
		s = "0" + s
	}
	s = s[:len(s)-2] + "." + s[len(s)-2:]
	if n.Sign() < 0 {
		s = "-" + s
	}
	return s
}

func (l *vLedger) text() string {
	var s strings.Builder
	s.WriteString("commodity CAD\n  format 1.00 CAD\n\n")
	for _, a := range append([]string{"Z"}, l.accts...) {
		s.WriteString("account " + a + "\n  commodity CAD\n\n")
	}
	for _, e := range l.posts {
		o := "Z"
		if e.other >= 0 {
			o = l.accts[e.other]
		}
		fmt.Fprintf(&s, "%04d/%02d/%02d %s\n", e.y, e.m, e.d, e.payee)
		if e.txTags != nil {
			s.WriteString("  ;" + vTagText(e.txTags) + "\n")
		}
		fmt.Fprintf(&s, "  %s  %s CAD", l.accts[e.acct], vHundredths(big.NewInt(e.qty)))
		if e.tags != nil {
			s.WriteString(" ;" + vTagText(e.tags))
		}
		fmt.Fprintf(&s, "\n  %s  %s CAD\n\n", o, vHundredths(big.NewInt(-e.qty)))
	}
	return s.String()
}

func vLoadMain(text string) {
	coin.Commodities = map[string]*coin.Commodity{}
	coin.CommoditiesBySymbol = map[string]*coin.Commodity{}
	coin.AccountsByName = map[string]*coin.Account{}
	coin.Prices, coin.Transactions, coin.Tests = nil, nil, nil
	coin.Root, coin.Unbalanced = nil, nil
	coin.DefaultCommodityId = "CAD"
	coin.Load(strings.NewReader(text), "v.coin")
	coin.ResolveAll()
}

// vSide is one posting as the reports should see it.
type vSide struct {
	e    *vEntry
	qty  int64
	tags map[string]string // of the posting itself
}

func (l *vLedger) of(acct int) (out []vSide) {
	for i := range l.posts {
		e := &l.posts[i]
		if e.acct == acct {
			out = append(out, vSide{e, e.qty, e.tags})
		}
		if e.other == acct {
			out = append(out, vSide{e, -e.qty, nil})
		}
	}
	return
}

func (l *vLedger) below(top, acct int) bool {
	return top == acct || strings.HasPrefix(l.accts[acct], l.accts[top]+":")
}

func (s vSide) period(kind string) string {
	switch kind {
	case "w":
		n := vDayNo(s.e.y, s.e.m, s.e.d)
		y, m, d := vCivil(n - (n+4)%7) // 1970-01-01 was a Thursday, weeks start on Sunday
		return fmt.Sprintf("%04d/%02d/%02d", y, m, d)
	case "m":
		return fmt.Sprintf("%04d/%02d", s.e.y, s.e.m)
	case "q":
		return fmt.Sprintf("%04d/%02d", s.e.y, (s.e.m-1)/3*3+1)
	case "y":
		return fmt.Sprintf("%04d", s.e.y)
	}
	return ""
}

func (s vSide) category(kind string) string {
	switch kind {
	case "bp":
		return s.e.payee
	case "bt":
		all := map[string]string{}
		for k, v := range s.e.txTags {
			all[k] = v
		}
		for k, v := range s.tags {
			all[k] = v
		}
		var ks []string
		for k, v := range all {
			if v != "" {
				k += ":" + v
			}
			ks = append(ks, k)
		}
		if len(ks) == 0 {
			return "<no-tags>"
		}
		sort.Strings(ks)
		return strings.Join(ks, ",")
	}
	return ""
}

type vCell struct{ period, category string }

// table: the sums per period and category of an account, and all the cells there are below it.
func (l *vLedger) table(acct int, period, category string, recurse bool) (sums map[vCell]*big.Int, cells map[vCell]bool) {
	sums, cells = map[vCell]*big.Int{}, map[vCell]bool{}
	for a := range l.accts {
		if !l.below(acct, a) {
			continue
		}
		for _, s := range l.of(a) {
			c := vCell{s.period(period), s.category(category)}
			cells[c] = true
			if a != acct && !recurse {
				continue
			}
			if sums[c] == nil {
				sums[c] = new(big.Int)
			}
			sums[c].Add(sums[c], big.NewInt(s.qty))
		}
	}
	return
}
