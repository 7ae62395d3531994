package main

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/mkobetic/coin"
)

func TestVerifGenerate(t *testing.T) {
	vRule("all built-in rules over random time ranges and random rules over commodities of 0 to 5 decimals, with random and balance based amounts: every generated transaction has one pair of postings that balances, between accounts of its rule")
	r := vRand()
	for n := 0; n < vN(60) && !vTime(8); n++ {
		rnd = rand.New(rand.NewSource(r.Int63()))
		coin.Commodities = map[string]*coin.Commodity{}
		coin.CommoditiesBySymbol = map[string]*coin.Commodity{}
		coin.AccountsByName = map[string]*coin.Account{}
		coin.Prices, coin.Transactions, coin.Tests = nil, nil, nil
		coin.Root, coin.Unbalanced = nil, nil
		coin.DefaultCommodityId = "CAD"
		begin := time.Date(1990+r.Intn(40), time.Month(1+r.Intn(12)), 1+r.Intn(28), 12, 0, 0, 0, time.UTC)
		end := begin.AddDate(0, r.Intn(14), r.Intn(28))
		in := fmt.Sprintf("seed step %d, from %s to %s", n, begin.Format("2006-01-02"), end.Format("2006-01-02"))
		var all samples
		if !vTry("generate", in, func() {
			var rules []*rule
			if n%2 == 0 {
				rules = personal()
			} else {
				form := "1"
				if dec := r.Intn(6); dec > 0 {
					form += "." + strings.Repeat("0", dec)
				}
				ld := "commodity ZZ\n  format " + form + " ZZ\n\n"
				for i := 0; i < 4; i++ {
					ld += fmt.Sprintf("account Other:Zz%d\n  commodity ZZ\n\n", i)
				}
				coin.DefaultCommodityId = "ZZ"
				coin.Load(strings.NewReader(ld), "")
				coin.ResolveAccounts()
				for k := 1 + r.Intn(6); k > 0; k-- {
					a, b := r.Intn(500)-100, r.Intn(500)-100
					if r.Intn(3) == 0 {
						a, b = []int{FROM_BALANCE, TO_BALANCE}[r.Intn(2)], []int{1, -1, 2, -600, 50}[r.Intn(5)]
					}
					rules = append(rules, newRule(monthly(1, 1, 1, -1), "P|Q", "Zz0|Zz1|Zz2", "Zz2|Zz3", a, b))
				}
			}
			for _, x := range rules {
				all = append(all, x.generateTransactions(begin, end)...)
			}
			for _, s := range all {
				s.generatePostings(s.Transaction)
			}
		}) {
			continue
		}
		listed := map[*coin.Posting]int{}
		for _, a := range coin.AccountsByName {
			for _, p := range a.Postings {
				listed[p]++
				if p.Account != a {
					vBad("place", "%s: %s lists a posting of %s", in, a.FullName, p.Account.FullName)
				}
			}
		}
		for _, s := range all {
			ps := s.Postings
			what := in + ": " + s.Transaction.String()
			if len(ps) != 2 {
				vBad("pair", "%s: %d postings", what, len(ps))
				continue
			}
			if ps[0].Quantity.Commodity != ps[1].Quantity.Commodity || ps[0].Quantity.Int.Cmp(ps[1].Quantity.Negated().Int) != 0 {
				vBad("balance", "%s", what)
			}
			x, y := ps[0], ps[1]
			if !vAmong(x.Account, s.rule.from) || !vAmong(y.Account, s.rule.to) {
				x, y = y, x
			}
			if !vAmong(x.Account, s.rule.from) || !vAmong(y.Account, s.rule.to) {
				vBad("accounts", "%s: not between accounts of its rule", what)
			}
			for _, p := range ps {
				if p.Transaction != s.Transaction || listed[p] != 1 {
					vBad("listed", "%s: listed %d times", what, listed[p])
				}
			}
			vCase(s.Transaction.String(), ps[0].Quantity.Sign() != 0)
		}
	}
}

func vAmong(a *coin.Account, as []*coin.Account) bool {
	for _, x := range as {
		if x == a {
			return true
		}
	}
	return false
}
