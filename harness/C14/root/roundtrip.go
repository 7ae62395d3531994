package coin

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"testing"
	"time"
)

// v14 is a set of items described independently of the code under test.
type v14 struct {
	coms   []*v14Com
	accts  []*v14Acct
	prices []*v14Price
	txs    []*v14Tx
}
type v14Com struct {
	id, name, symbol string
	dec              int
	nomarket         bool
}
type v14Acct struct {
	name, note, bank, ofx, csv string
	com                        *v14Com
	closed                     time.Time
}
type v14Price struct {
	com, cur *v14Com
	val      *big.Int
	day      time.Time
}
type v14Post struct {
	acct  *v14Acct
	qty   *big.Int
	bal   *big.Int
	bcom  *v14Com
	notes []string
}
type v14Tx struct {
	day        time.Time
	code, desc string
	notes      []string
	posts      []*v14Post
}

func vPick(r *rand.Rand, alphabet string, n int) string {
	rs := []rune(alphabet)
	s := ""
	for ; n > 0; n-- {
		s += string(rs[r.Intn(len(rs))])
	}
	return s
}

const vWord = "abcXYZ019_"

// vNote is the text of a note: anything on one line that is not empty.
func vNote(r *rand.Rand) string {
	n := 1 + r.Intn(12)
	switch r.Intn(6) {
	case 0:
		n = 50 + r.Intn(40)
	case 1:
		n = 1
	}
	s := vPick(r, "aZ9 ;:#()=.,-+*/\"'é€\t  P%", n)
	if r.Intn(3) > 0 {
		s = strings.TrimLeft(s, " \t")
	}
	if s == "" {
		s = "n"
	}
	return s
}
func vNotes(r *rand.Rand) (ns []string) {
	if r.Intn(2) == 0 {
		return nil
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		ns = append(ns, vNote(r))
		if r.Intn(5) == 0 {
			ns[len(ns)-1] = ns[0]
		}
	}
	return ns
}
func vItemDay(r *rand.Rand) time.Time {
	y := 1000 + r.Intn(9000)
	if r.Intn(2) == 0 {
		y = 1990 + r.Intn(60)
	}
	return time.Date(y, time.Month(1+r.Intn(12)), 1+r.Intn(28), 12, 0, 0, 0, time.UTC)
}
func vNum(r *rand.Rand) *big.Int {
	n := new(big.Int).Rand(r, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(1+r.Intn(18))), nil))
	if r.Intn(2) == 0 {
		n.Neg(n)
	}
	if r.Intn(8) == 0 {
		n.SetInt64(0)
	}
	return n
}

func vItems(r *rand.Rand) *v14 {
	v := &v14{}
	ids := map[string]bool{}
	for i := 1 + r.Intn(4); i > 0; i-- {
		c := &v14Com{id: vPick(r, "abcXYZ", 1) + vPick(r, vWord, r.Intn(6)), dec: r.Intn(7) + r.Intn(2)*r.Intn(7), nomarket: r.Intn(2) == 0}
		if ids[c.id] {
			continue
		}
		ids[c.id] = true
		if r.Intn(2) == 0 {
			c.name = strings.TrimLeft(vNote(r), " \t")
			if c.name == "" {
				c.name = "note"
			}
		}
		if r.Intn(2) == 0 {
			c.symbol = vPick(r, vWord+".", 1+r.Intn(6))
		}
		v.coms = append(v.coms, c)
	}
	names := map[string]bool{}
	for i := 1 + r.Intn(5); i > 0; i-- {
		a := &v14Acct{com: v.coms[r.Intn(len(v.coms))]}
		for k := r.Intn(3); k >= 0; k-- {
			a.name += ":" + vPick(r, "abXY", 1) + vPick(r, "abX0/_-", r.Intn(8))
		}
		a.name = a.name[1:]
		if names[a.name] {
			continue
		}
		names[a.name] = true
		if k := r.Intn(5); k == 0 {
			a.note = vPick(r, "aé7;#", 1)
		} else if k > 2 {
			a.note = strings.TrimLeft(vNote(r)+"x", " \t")
		}
		if r.Intn(3) == 0 {
			a.closed = vItemDay(r)
		}
		if r.Intn(3) == 0 {
			a.bank = vPick(r, "0123456789", 1+r.Intn(9))
		}
		if r.Intn(3) == 0 {
			a.ofx = vPick(r, "0123456789", 1+r.Intn(9))
		}
		if r.Intn(3) == 0 {
			a.csv = vPick(r, vWord, 1+r.Intn(9))
		}
		v.accts = append(v.accts, a)
	}
	for i := r.Intn(4); i > 0; i-- {
		v.prices = append(v.prices, &v14Price{v.coms[r.Intn(len(v.coms))], v.coms[r.Intn(len(v.coms))], vNum(r), vItemDay(r)})
	}
	for i := r.Intn(5); i > 0; i-- {
		t := &v14Tx{day: vItemDay(r), notes: vNotes(r)}
		if r.Intn(3) == 0 {
			t.code = vPick(r, vWord, 1+r.Intn(8))
		}
		if r.Intn(4) > 0 {
			t.desc = strings.Trim(vPick(r, "aZ9 :#()=.,-+*/\"'é%", 1+r.Intn(60)), " ")
			if t.desc != "" && r.Intn(6) == 0 {
				t.desc += []string{"\u00a0", "\u2003", "\u0085", " \u00a0", "\v"}[r.Intn(5)] // no blanks to the grammar
			}
			if t.code == "" && strings.HasPrefix(t.desc, "(") {
				t.desc = "x" + t.desc // would be a code
			}
		}
		for k := r.Intn(4); k > 0; k-- {
			p := &v14Post{acct: v.accts[r.Intn(len(v.accts))], qty: vNum(r)}
			q := &v14Post{acct: p.acct, qty: new(big.Int).Neg(p.qty)}
			for _, a := range v.accts {
				if a.com == p.acct.com && r.Intn(2) == 0 {
					q.acct = a
				}
			}
			t.posts = append(t.posts, p, q)
		}
		r.Shuffle(len(t.posts), func(i, j int) { t.posts[i], t.posts[j] = t.posts[j], t.posts[i] })
		for _, p := range t.posts {
			p.notes = vNotes(r)
			if r.Intn(3) == 0 {
				p.bal, p.bcom = vNum(r), p.acct.com
				if r.Intn(4) == 0 {
					p.bcom = v.coms[r.Intn(len(v.coms))]
				}
			}
		}
		v.txs = append(v.txs, t)
	}
	return v
}

func (v *v14) describe() (ds []string) {
	q := func(f string, a ...any) { ds = append(ds, fmt.Sprintf(f, a...)) }
	for _, c := range v.coms {
		q("commodity %s note %q symbol %q decimals %d nomarket %v", c.id, c.name, c.symbol, c.dec, c.nomarket)
	}
	for _, a := range v.accts {
		q("account %s note %q commodity %s closed %s ids %q %q %q", a.name, a.note, a.com.id, a.closed.Format("2006-01-02"), a.bank, a.ofx, a.csv)
	}
	for _, p := range v.prices {
		q("price %s %s %s/%d %s", p.day.Format("2006-01-02"), p.com.id, p.val, p.cur.dec, p.cur.id)
	}
	for _, t := range v.txs {
		s := fmt.Sprintf("transaction %s %q %q %q", t.day.Format("2006-01-02"), t.code, t.desc, t.notes)
		for _, p := range t.posts {
			s += fmt.Sprintf(" [%s %s %s %q", p.acct.name, p.qty, p.acct.com.id, p.notes)
			if p.bal != nil {
				s += fmt.Sprintf(" = %s %s", p.bal, p.bcom.id)
			}
			s += "]"
		}
		ds = append(ds, s)
	}
	sort.Strings(ds)
	return ds
}

// build makes the items of the program, text prints them.
func (v *v14) build() (its []interface{ String() string }, text string) {
	cs := map[*v14Com]*Commodity{}
	as := map[*v14Acct]*Account{}
	var s strings.Builder
	for _, c := range v.coms {
		cs[c] = &Commodity{Id: c.id, Name: c.name, Symbol: c.symbol, Decimals: c.dec, NoMarket: c.nomarket}
		cs[c].Write(&s, false)
		s.WriteString("\n")
	}
	for _, a := range v.accts {
		as[a] = &Account{FullName: a.name, Name: a.name[strings.LastIndex(a.name, ":")+1:], Description: a.note, Commodity: cs[a.com], CommodityId: a.com.id, Closed: a.closed, OFXBankId: a.bank, OFXAcctId: a.ofx, CSVAcctId: a.csv}
		as[a].Write(&s, false)
		s.WriteString("\n")
	}
	for _, p := range v.prices {
		s.WriteString((&Price{Commodity: cs[p.com], Currency: cs[p.cur], Value: NewAmount(new(big.Int).Set(p.val), cs[p.cur]), Time: p.day}).String())
	}
	for i, t := range v.txs {
		tx := &Transaction{Posted: t.day, Code: t.code, Description: t.desc, Notes: append([]string(nil), t.notes...)}
		for _, p := range t.posts {
			post := &Posting{Transaction: tx, Account: as[p.acct], Quantity: NewAmount(new(big.Int).Set(p.qty), cs[p.acct.com]), Notes: append([]string(nil), p.notes...)}
			if p.bal != nil {
				post.Balance, post.BalanceAsserted = NewAmount(new(big.Int).Set(p.bal), cs[p.bcom]), true
			}
			tx.Postings = append(tx.Postings, post)
		}
		if i%2 == 0 {
			s.WriteString("\n")
		}
		s.WriteString(tx.String())
	}
	return nil, s.String()
}

func v14Load(text string) {
	vReset()
	Commodities["CAD"] = &Commodity{Id: "CAD", Decimals: 2}
	Load(strings.NewReader(text), "v.coin")
	ResolveAccounts()
	ResolvePrices()
	ResolveTransactions(false)
}

// v14Loaded describes what was loaded, and prints it again in the order given.
func v14Loaded(v *v14) (ds []string, text string) {
	var s strings.Builder
	q := func(f string, a ...any) { ds = append(ds, fmt.Sprintf(f, a...)) }
	for _, vc := range v.coms {
		c := Commodities[vc.id]
		if c == nil {
			q("commodity %s is gone", vc.id)
			continue
		}
		q("commodity %s note %q symbol %q decimals %d nomarket %v", c.Id, c.Name, c.Symbol, c.Decimals, c.NoMarket)
		c.Write(&s, false)
		s.WriteString("\n")
	}
	for _, va := range v.accts {
		a := AccountsByName[va.name]
		if a == nil {
			q("account %s is gone", va.name)
			continue
		}
		q("account %s note %q commodity %s closed %s ids %q %q %q", a.FullName, a.Description, a.Commodity.Id, a.Closed.Format("2006-01-02"), a.OFXBankId, a.OFXAcctId, a.CSVAcctId)
		a.Write(&s, false)
		s.WriteString("\n")
	}
	for _, p := range Prices {
		q("price %s %s %s/%d %s", p.Time.Format("2006-01-02"), p.Commodity.Id, p.Value.Int, p.Currency.Decimals, p.Currency.Id)
	}
	byLine := append([]*Price(nil), Prices...)
	sort.SliceStable(byLine, func(i, j int) bool { return byLine[i].line < byLine[j].line })
	for _, p := range byLine {
		s.WriteString(p.String())
	}
	txs := append([]*Transaction(nil), Transactions...)
	sort.SliceStable(txs, func(i, j int) bool { return txs[i].line < txs[j].line })
	for i, t := range txs {
		d := fmt.Sprintf("transaction %s %q %q %q", t.Posted.Format("2006-01-02"), t.Code, t.Description, t.Notes)
		for _, p := range t.Postings {
			d += fmt.Sprintf(" [%s %s %s %q", p.Account.FullName, p.Quantity.Int, p.Quantity.Commodity.Id, p.Notes)
			if p.BalanceAsserted {
				d += fmt.Sprintf(" = %s %s", p.Balance.Int, p.Balance.Commodity.Id)
			}
			d += "]"
		}
		ds = append(ds, d)
		if i%2 == 0 {
			s.WriteString("\n")
		}
		s.WriteString(t.String())
	}
	sort.Strings(ds)
	return ds, s.String()
}

func init() {
	vSub["load"] = vLoadSub14
}

func vLoadSub14() { v14Load(os.Getenv("VERIF_ARG")) }

func TestVerifRoundTrip(t *testing.T) {
	vRule("random commodities, accounts, prices and transactions (notes of any characters and length, with and without leading blanks, descriptions, codes, assertions, closing dates, identifiers, quantities up to 18 digits) are printed, read back and compared field by field; the re-read items print the same text")
	r := vRand()
	for n := 0; n < vN(6000) && !vTime(10); n++ {
		v := vItems(r)
		want := v.describe()
		_, text := v.build()
		vCase(text, len(v.txs) > 0)
		ok := vTry("crash", text, func() {
			if n < 3 {
				if code, out := vChild("load", text); code != 0 {
					vBad("refused", "%s\nprinted items are refused: %s", text, out)
				}
			}
			v14Load(text)
			got, again := v14Loaded(v)
			if len(got) != len(want) {
				vBad("items", "%s\n%d items were printed, %d read back:\n%s\n%s", text, len(want), len(got), strings.Join(want, "\n"), strings.Join(got, "\n"))
				return
			}
			for i := range want {
				if want[i] != got[i] {
					vBad("item", "%s\nthe item printed  %s\nis read back as   %s", text, want[i], got[i])
					return
				}
			}
			if text != again {
				vBad("text", "the text printed was\n%s\nprinting what was read gives\n%s", text, again)
			}
		})
		if !ok {
			return
		}
	}
}
