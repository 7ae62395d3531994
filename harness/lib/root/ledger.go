package coin

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
)

// vReset empties all collections a ledger is loaded into.
func vReset() {
	Commodities = map[string]*Commodity{}
	CommoditiesBySymbol = map[string]*Commodity{}
	AccountsByName = map[string]*Account{}
	Prices, Transactions, Tests = nil, nil, nil
	Root, Unbalanced = nil, nil
	DefaultCommodityId = "CAD"
}

func vLoad(text string) {
	vReset()
	Load(strings.NewReader(text), "v.coin")
	ResolveAll()
}

func vLoadSub() {
	vLoad(os.Getenv("VERIF_ARG"))
}

type vCom struct {
	id  string
	dec int
}

type vPost struct {
	acct    int
	qty     *big.Int // nil: elided
	com     int
	bal     *big.Int // nil: not asserted
	balText string
}

type vTx struct {
	day   int // days after 2000-01-01
	posts []vPost
	line  int
}

// vBook is a ledger described independently of the code under test.
type vBook struct {
	coms  []vCom
	accts []string
	acom  []int
	txs   []*vTx
}

// vDec renders n/10^d with exactly d decimals.
func vDec(n *big.Int, d int) string {
	s := new(big.Int).Abs(n).String()
	for len(s) <= d {
		s = "0" + s
	}
	if d > 0 {
		s = s[:len(s)-d] + "." + s[len(s)-d:]
	}
	if n.Sign() < 0 {
		s = "-" + s
	}
	return s
}

func vDate(day int) string {
	m := day / 28 % 12
	return fmt.Sprintf("%d/%02d/%02d", 2000+day/336, m+1, day%28+1)
}

func (b *vBook) text() string {
	var s strings.Builder
	n := 0
	pr := func(f string, a ...any) {
		fmt.Fprintf(&s, f+"\n", a...)
		n++
	}
	for _, c := range b.coms {
		pr("commodity %s", c.id)
		one := "1"
		if c.dec > 0 {
			one = "1." + strings.Repeat("0", c.dec)
		}
		pr("  format %s %s", one, c.id)
		pr("")
	}
	for i, a := range b.accts {
		pr("account %s", a)
		pr("  commodity %s", b.coms[b.acom[i]].id)
		pr("")
	}
	for _, t := range b.txs {
		t.line = n + 1
		pr("%s payee", vDate(t.day))
		for _, p := range t.posts {
			l := "  " + b.accts[p.acct]
			if p.qty != nil {
				c := b.coms[p.com]
				l += "  " + vDec(p.qty, c.dec) + " " + c.id
				if p.bal != nil {
					c := b.coms[b.acom[p.acct]]
					l += " = " + vDec(p.bal, c.dec) + " " + c.id
				}
			}
			pr("%s", l)
		}
		pr("")
	}
	return s.String()
}

var vAcctNames = []string{"Assets:Bank", "Assets:Cash", "Expenses:Food", "Expenses:Food:Out", "Income:Job", "Liabilities:Card"}

// vMakeBook generates a ledger; every transaction balances.
func vMakeBook(r *rand.Rand, maxTx int, coms int) *vBook {
	b := &vBook{coms: []vCom{{"CAD", 2}, {"USD", r.Intn(4)}, {"XX", r.Intn(6)}}[:coms]}
	k := 2 + r.Intn(len(vAcctNames)-1)
	for i := 0; i < k; i++ {
		b.accts = append(b.accts, vAcctNames[i])
		b.acom = append(b.acom, r.Intn(coms))
	}
	days := 1 + r.Intn(20)
	for i := 1 + r.Intn(maxTx); i > 0; i-- {
		t := &vTx{day: r.Intn(days)}
		c := r.Intn(coms)
		var as []int
		for a := range b.accts {
			if b.acom[a] == c || r.Intn(8) == 0 {
				as = append(as, a)
			}
		}
		if len(as) == 0 {
			continue
		}
		tot := new(big.Int)
		mixed := false
		n := 1 + r.Intn(5)
		for j := 0; j < n; j++ {
			a := as[r.Intn(len(as))]
			q := vQty(r)
			t.posts = append(t.posts, vPost{acct: a, qty: q, com: b.acom[a]})
			mixed = mixed || b.acom[a] != b.acom[t.posts[0].acct]
			tot.Add(tot, q)
		}
		if !mixed {
			j := r.Intn(n)
			q := new(big.Int).Sub(t.posts[j].qty, tot)
			t.posts[j].qty = q
			if r.Intn(3) == 0 {
				t.posts[j].qty = nil
			}
		}
		b.txs = append(b.txs, t)
	}
	return b
}

func vQty(r *rand.Rand) *big.Int {
	switch r.Intn(8) {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(int64(r.Intn(3)) - 1)
	case 2:
		q := big.NewInt(r.Int63n(1e15) - 5e14)
		return q
	}
	return big.NewInt(int64(r.Intn(200001) - 100000))
}

// mixed tells whether the accounts of t have several commodities.
func (b *vBook) mixed(t *vTx) bool {
	for _, p := range t.posts {
		if b.acom[p.acct] != b.acom[t.posts[0].acct] {
			return true
		}
	}
	return false
}

// full returns the quantities of t with the elided one filled in.
func (t *vTx) full() []*big.Int {
	tot := new(big.Int)
	e := -1
	var out []*big.Int
	for i, p := range t.posts {
		if p.qty == nil {
			e = i
		} else {
			tot.Add(tot, p.qty)
		}
		out = append(out, p.qty)
	}
	if e >= 0 {
		out[e] = new(big.Int).Neg(tot)
	}
	return out
}

// order is the order of transactions after resolution: by date, stable, those with assertions last within a day.
func (b *vBook) order() []*vTx {
	out := append([]*vTx{}, b.txs...)
	as := func(t *vTx) bool {
		for _, p := range t.posts {
			if p.bal != nil {
				return true
			}
		}
		return false
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].day != out[j].day {
			return out[i].day < out[j].day
		}
		return !as(out[i]) && as(out[j])
	})
	return out
}
