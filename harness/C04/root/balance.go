package coin

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"
)

func TestVerifBalances(t *testing.T) {
	vRule("random ledgers loaded from text, with correct, wrong and absent balance assertions on random postings: the balance of every posting and account against exact running sums in date order, and the reports against the wrong assertions")
	r := vRand()
	for n := 0; n < vN(5000) && !vTime(8); n++ {
		b := vMakeBook(r, 14, 1+r.Intn(3))
		type at struct{ t, j int }
		run := func() (bals map[at]*big.Int, last []*big.Int, seq [][]at) {
			// postings of each account in date order, equal dates in file order
			seq = make([][]at, len(b.accts))
			bals = map[at]*big.Int{}
			for i, tx := range b.txs {
				for j := range tx.posts {
					a := tx.posts[j].acct
					seq[a] = append(seq[a], at{i, j})
				}
			}
			last = make([]*big.Int, len(b.accts))
			for a := range seq {
				sort.SliceStable(seq[a], func(x, y int) bool { return b.txs[seq[a][x].t].day < b.txs[seq[a][y].t].day })
				sum := new(big.Int)
				for _, p := range seq[a] {
					sum = new(big.Int).Add(sum, b.txs[p.t].full()[p.j])
					bals[p] = sum
				}
				last[a] = sum
			}
			return
		}
		bals, last, seq := run()
		wrong := 0
		kinds := ""
		for i, tx := range b.txs {
			for j := range tx.posts {
				if tx.posts[j].qty == nil || r.Intn(3) > 0 {
					continue
				}
				v := new(big.Int).Set(bals[at{i, j}])
				if r.Intn(2) == 0 {
					switch r.Intn(3) {
					case 0:
						v.Add(v, big.NewInt(int64(1-2*r.Intn(2))))
					case 1:
						v.Neg(v)
					case 2:
						v = vQty(r)
					}
				}
				tx.posts[j].bal = v
				if v.Cmp(bals[at{i, j}]) != 0 {
					wrong++
				}
				kinds += "a"
			}
		}
		text := b.text()
		var rep string
		if !vTry("balances", text, func() { rep = vStderr(func() { vLoad(text) }) }) {
			continue
		}
		vCase(text, wrong > 0)
		byLine := map[uint]*Transaction{}
		for _, tr := range Transactions {
			byLine[tr.line] = tr
		}
		lines := strings.Split(strings.TrimSuffix(rep, "\n"), "\n")
		if rep == "" {
			lines = nil
		}
		used := make([]bool, len(lines))
		for a := range seq {
			acc := AccountsByName[b.accts[a]]
			if acc.Balance().Int.Cmp(last[a]) != 0 || acc.Balance().Commodity != acc.Commodity {
				vBad("account", "ledger:\n%saccount %s has balance %v, should have %s", text, acc.FullName, acc.Balance(), last[a])
			}
			if len(acc.Postings) != len(seq[a]) {
				vBad("postings", "ledger:\n%saccount %s has %d postings, should have %d", text, acc.FullName, len(acc.Postings), len(seq[a]))
				continue
			}
			for k, p := range seq[a] {
				tx := b.txs[p.t]
				got := acc.Postings[k]
				if tr := byLine[uint(tx.line)]; tr == nil || p.j >= len(tr.Postings) || tr.Postings[p.j] != got {
					vBad("sequence", "ledger:\n%sposting %d of account %s is not posting %d of the transaction at line %d", text, k, acc.FullName, p.j, tx.line)
					break
				}
				want := bals[p]
				as := tx.posts[p.j].bal
				if as != nil {
					want = as
				}
				if got.Balance == nil || got.Balance.Int.Cmp(want) != 0 || got.Balance.Commodity != acc.Commodity || got.BalanceAsserted != (as != nil) {
					vBad("posting", "ledger:\n%sposting %d of account %s has balance %v (asserted %v), should have %s (asserted %v)", text, k, acc.FullName, got.Balance, got.BalanceAsserted, want, as != nil)
				}
				if got.Balance != nil && (got.Balance == acc.Balance() || got.Balance.Int == acc.Balance().Int || got.Balance.Int == got.Quantity.Int) {
					vBad("shared", "ledger:\n%sposting %d of account %s shares its balance with the account or its quantity", text, k, acc.FullName)
				}
				if as != nil && as.Cmp(bals[p]) != 0 {
					d := b.coms[b.acom[a]].dec
					found := false
					for i, l := range lines {
						if !used[i] && vHas(l, acc.FullName) && strings.HasSuffix(l, fmt.Sprintf("v.coin:%d", tx.line)) && vHas(l, vDec(bals[p], d)) && vHas(l, vDec(as, d)) {
							used[i], found = true, true
							break
						}
					}
					if !found {
						vBad("unreported", "ledger:\n%sthe wrong assertion of posting %d at line %d (computed %s, asserted %s) is not reported with its account, both balances and its transaction in:\n%s", text, p.j, tx.line, vDec(bals[p], d), vDec(as, d), rep)
					}
				}
			}
		}
		for i, l := range lines {
			if !used[i] {
				vBad("spurious", "ledger:\n%sreports %q although no such assertion is wrong", text, l)
			}
		}
	}
}

// vHas tells whether a message contains a text as a word of its own.
func vHas(l, w string) bool {
	for _, f := range strings.Fields(l) {
		if strings.Trim(f, ",;:()") == w {
			return true
		}
	}
	return false
}

func TestVerifRescaledAssertions(t *testing.T) {
	vRule("postings of one account with assertions in commodities of other precisions: reported exactly when they differ from the computed balance after rescaling to the account's precision, and the balances stay as computed")
	r := vRand()
	decs := map[string]int{"JJ": 0, "KK": 1, "CAD": 2, "XX": 3, "QQ": 5}
	head := ""
	for c, d := range decs {
		head += "commodity " + c + "\n  format " + vDec(big.NewInt(0), d) + " " + c + "\n\n"
	}
	ids := []string{"JJ", "KK", "CAD", "XX", "QQ"}
	ten := func(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }
	for n := 0; n < vN(3000) && !vTime(12); n++ {
		own := ids[r.Intn(5)]
		text := head + "account A\n  commodity " + own + "\n\naccount B\n  commodity " + own + "\n\n"
		line := strings.Count(text, "\n") + 1
		sum := new(big.Int)
		wrong := map[int]bool{}
		var sums []*big.Int
		for k := 1 + r.Intn(4); k > 0; k-- {
			q := big.NewInt(int64(r.Intn(4001) - 2000))
			sum = new(big.Int).Add(sum, q)
			sums = append(sums, sum)
			text += fmt.Sprintf("20%02d/01/01 t\n  A  %s %s", 10-k, vDec(q, decs[own]), own)
			as := ids[r.Intn(5)]
			// near the computed balance, at the precision of the assertion
			v := new(big.Int).Mul(sum, ten(decs[as]))
			v.Quo(v, ten(decs[own]))
			if decs[as] > decs[own] && r.Intn(2) == 0 {
				v.Add(v, big.NewInt(int64(r.Intn(19)-9)))
			} else if r.Intn(4) == 0 {
				v.Add(v, big.NewInt(int64(r.Intn(3)-1)))
			}
			if r.Intn(3) > 0 {
				text += fmt.Sprintf(" = %s %s", vDec(v, decs[as]), as)
				w := new(big.Int).Mul(v, ten(decs[own]))
				wrong[line] = w.Quo(w, ten(decs[as])).Cmp(sum) != 0
			}
			text += "\n  B\n\n"
			line += 4
		}
		var rep string
		if !vTry("balances", text, func() { rep = vStderr(func() { vLoad(text) }) }) {
			continue
		}
		vCase(text, len(wrong) > 0)
		for l, w := range wrong {
			if got := strings.Contains(rep, fmt.Sprintf("v.coin:%d\n", l)); got != w {
				vBad("rescaled", "ledger:\n%sthe assertion of the transaction at line %d is reported: %v, should be %v", text, l, got, w)
			}
		}
		a := AccountsByName["A"]
		for _, tr := range Transactions {
			for _, p := range tr.Postings {
				if p.Account == a && p.Balance == nil {
					vBad("posting", "ledger:\n%sa posting has no balance", text)
				}
			}
		}
		if a.Balance().Int.Cmp(sum) != 0 || AccountsByName["B"].Balance().Int.CmpAbs(sum) != 0 {
			vBad("account", "ledger:\n%saccount A has balance %v, should have %s", text, a.Balance(), vDec(sum, decs[own]))
		}
	}
}
