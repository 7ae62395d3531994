package coin

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"testing"
	"time"
)

var (
	vCAD = &Commodity{Id: "CAD", Decimals: 2}
	vXX  = &Commodity{Id: "XX", Decimals: 0}
	vAs  = []*Account{
		{Name: "A", FullName: "A", Commodity: vCAD, CommodityId: "CAD"},
		{Name: "B", FullName: "B", Commodity: vCAD, CommodityId: "CAD"},
		{Name: "C", FullName: "C", Commodity: vXX, CommodityId: "XX"},
	}
)

// vMake builds a transaction from a small space, so that equal ones are frequent.
func vMake(r *rand.Rand) *Transaction {
	t := &Transaction{
		Posted:      time.Date(2024, 2, 28+r.Intn(2), 12, 0, 0, 0, time.UTC),
		Code:        []string{"", "", "", "7"}[r.Intn(4)],
		Description: []string{"x", "y"}[r.Intn(2)],
	}
	for n := r.Intn(4); n > 0; n-- {
		a := vAs[r.Intn(3)]
		p := &Posting{Transaction: t, Account: a, Quantity: &Amount{Int: big.NewInt(int64(r.Intn(5) - 2)), Commodity: a.Commodity}}
		if r.Intn(3) == 0 {
			p.Balance = &Amount{Int: big.NewInt(int64(r.Intn(3))), Commodity: a.Commodity}
			p.BalanceAsserted = r.Intn(3) > 0
		}
		t.Postings = append(t.Postings, p)
	}
	return t
}

// vVary copies t and sometimes changes one thing.
func vVary(r *rand.Rand, t *Transaction) *Transaction {
	c := *t
	c.Postings = nil
	for _, p := range t.Postings {
		q := *p
		q.Transaction = &c
		q.Quantity = &Amount{Int: new(big.Int).Set(p.Quantity.Int), Commodity: p.Quantity.Commodity}
		if r.Intn(2) == 0 {
			q.Balance, q.BalanceAsserted = nil, false
		} else if r.Intn(2) == 0 {
			q.Balance, q.BalanceAsserted = &Amount{Int: big.NewInt(5), Commodity: p.Account.Commodity}, r.Intn(2) == 0
		}
		c.Postings = append(c.Postings, &q)
	}
	n := len(c.Postings)
	switch k := r.Intn(12); {
	case k == 0:
		c.Posted = c.Posted.Add([]time.Duration{time.Second, -time.Hour, 24 * time.Hour}[r.Intn(3)])
	case k == 1:
		c.Code += "1"
	case k == 2 && n > 0:
		c.Postings = c.Postings[:n-1]
	case k == 3 && n > 0:
		p := c.Postings[r.Intn(n)]
		p.Quantity.Int.Add(p.Quantity.Int, big.NewInt(1))
	case k == 4 && n > 0:
		p := c.Postings[r.Intn(n)]
		p.Quantity.Int.Neg(p.Quantity.Int)
	case k == 5 && n > 0:
		p := c.Postings[r.Intn(n)]
		p.Account = vAs[(r.Intn(2)+1)%3]
	case k == 6 && n > 1:
		i, j := r.Intn(n), r.Intn(n)
		c.Postings[i], c.Postings[j] = c.Postings[j], c.Postings[i]
	case k == 7:
		c.Description += "!"
		c.Notes = []string{"n"}
	case k == 8:
		c.Posted = c.Posted.In(time.FixedZone("x", 3600))
	}
	return &c
}

func vTxt(t *Transaction) string {
	var s strings.Builder
	fmt.Fprintf(&s, "%s (%s)", t.Posted.UTC().Format("2006-01-02T15:04:05"), t.Code)
	for _, p := range t.Postings {
		fmt.Fprintf(&s, " %s %s", p.Account.FullName, p.Quantity.Int)
		if p.Balance != nil {
			fmt.Fprintf(&s, "=%s(%v)", p.Balance.Int, p.BalanceAsserted)
		}
	}
	return s.String()
}

// vEq is the definition of equality.
func vEq(t, u *Transaction) bool {
	if t.Posted.UnixNano() != u.Posted.UnixNano() || t.Code != u.Code || len(t.Postings) != len(u.Postings) {
		return false
	}
	for i, p := range t.Postings {
		q := u.Postings[i]
		a := new(big.Int).Mul(p.Quantity.Int, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(q.Quantity.Decimals)), nil))
		b := new(big.Int).Mul(q.Quantity.Int, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(p.Quantity.Decimals)), nil))
		if p.Account != q.Account || p.Quantity.Commodity == q.Quantity.Commodity && a.Cmp(b) != 0 {
			return false
		}
		if p.Quantity.Commodity != q.Quantity.Commodity {
			panic("generator: one account, two commodities")
		}
	}
	return true
}

func TestVerifDuplicates(t *testing.T) {
	vRule("random transactions of 0 to 3 postings and variations of them: equality against its definition, search in lists of 0 to 6, merging against a copy made before")
	r := vRand()
	for n := 0; n < vN(60000) && !vTime(6); n++ {
		a := vMake(r)
		b := vVary(r, a)
		for i, p := range b.Postings { // an account has one commodity
			if p.Account.Commodity != p.Quantity.Commodity {
				b.Postings[i].Quantity.Commodity = p.Account.Commodity
			}
		}
		in := vTxt(a) + " | " + vTxt(b)
		vTry("equal", in, func() {
			want := vEq(a, b)
			if a.IsEqual(b) != want || b.IsEqual(a) != want {
				vBad("equal", "%s: equal %v and %v, should be %v", in, a.IsEqual(b), b.IsEqual(a), want)
			}
			for i := range a.Postings {
				if i < len(b.Postings) {
					p, q := a.Postings[i], b.Postings[i]
					w := p.Account == q.Account && p.Quantity.Int.Cmp(q.Quantity.Int) == 0
					if p.IsEqual(q) != w {
						vBad("posting", "%s: posting %d equal %v, should be %v", in, i, !w, w)
					}
				}
			}
		})
		var list TransactionsByTime
		for k := r.Intn(7); k > 0; k-- {
			u := vMake(r)
			if r.Intn(3) == 0 {
				u = vVary(r, a)
				for _, p := range u.Postings {
					p.Quantity.Commodity = p.Account.Commodity
				}
			}
			list = append(list, u)
		}
		lin := "list"
		for _, u := range list {
			lin += " [" + vTxt(u) + "]"
		}
		lin += " looking for " + vTxt(a)
		vTry("find", lin, func() {
			before := append(TransactionsByTime{}, list...)
			some := false
			for _, u := range list {
				some = some || vEq(u, a)
			}
			got := list.FindEqual(a)
			ok := (got != nil) == some
			if got != nil {
				in := false
				for _, u := range list {
					in = in || u == got
				}
				ok = ok && in && vEq(got, a)
			}
			if !ok {
				vBad("find", "%s: found %v", lin, got != nil)
			}
			if list.Includes(a) != some {
				vBad("includes", "%s: includes is %v", lin, !some)
			}
			for i := range before {
				if list[i] != before[i] {
					vBad("list changed", "%s: element %d", lin, i)
				}
			}
		})
		if len(a.Postings) <= len(b.Postings) {
			vTry("merge", in, func() {
				ta, tb := vTxt(b), vTxt(a)
				ps := append([]*Posting{}, a.Postings...)
				type old struct {
					q   *Amount
					v   string
					bal *Amount
					bas bool
				}
				var olds []old
				for _, p := range ps {
					olds = append(olds, old{p.Quantity, p.Quantity.Int.String(), p.Balance, p.BalanceAsserted})
				}
				desc := a.Description
				a.MergeDuplicate(b)
				if vTxt(b) != ta {
					vBad("merge changes the duplicate", "%s: now %s", in, vTxt(b))
				}
				if len(a.Postings) != len(ps) || a.Description != desc {
					vBad("merge", "%s: now %s was %s", in, vTxt(a), tb)
					return
				}
				for i, p := range a.Postings {
					o := olds[i]
					bal, bas := o.bal, o.bas
					if bal == nil && b.Postings[i].Balance != nil {
						bal, bas = b.Postings[i].Balance, b.Postings[i].BalanceAsserted
					}
					same := (bal == nil) == (p.Balance == nil) && (bal == nil || bal.Int.Cmp(p.Balance.Int) == 0)
					if p != ps[i] || p.Quantity != o.q || p.Quantity.Int.String() != o.v || !same || p.BalanceAsserted != bas || p.Transaction != a {
						vBad("merge", "%s: posting %d now %s", in, i, vTxt(a))
					}
				}
			})
		}
		vCase(in, len(a.Postings) > 0 && a.Posted.Equal(b.Posted))
	}
}
