package coin

import (
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"
)

func init() { vSub["load"] = vLoadSub }

func TestVerifResolve(t *testing.T) {
	vRule("random ledgers loaded from text: 1 to 12 transactions of 1 to 5 postings over up to 6 accounts and 3 commodities, balanced, with or without an elided posting, or in several commodities: quantities after resolution against exact sums; plus single faulty transactions (unbalanced, two elided, elided among mixed commodities, foreign quantity without price) that must stop the program")
	r := vRand()
	for n := 0; n < vN(4000) && !vTime(7); n++ {
		b := vMakeBook(r, 12, 1+r.Intn(3))
		text := b.text()
		vTry("resolve", text, func() {
			vLoad(text)
			want := b.order()
			if len(want) != len(Transactions) {
				vBad("count", "ledger:\n%s%d transactions after resolution", text, len(Transactions))
				return
			}
			for i, w := range want {
				got := Transactions[i]
				if got.line != uint(w.line) || len(got.Postings) != len(w.posts) {
					vBad("order", "ledger:\n%stransaction %d is that of line %d with %d postings, should be that of line %d", text, i, got.line, len(got.Postings), w.line)
					return
				}
				tot := new(big.Int)
				for j, q := range w.full() {
					p := got.Postings[j]
					if p.Quantity == nil || p.Quantity.Int.Cmp(q) != 0 || p.Quantity.Commodity.Id != b.coms[b.acom[w.posts[j].acct]].id {
						vBad("quantity", "ledger:\n%sposting %d of the transaction at line %d has quantity %v, should have %s units of %s", text, j, w.line, p.Quantity, q, b.coms[b.acom[w.posts[j].acct]].id)
						return
					}
					if p.Account == nil || p.Account.FullName != b.accts[w.posts[j].acct] {
						vBad("account", "ledger:\n%sposting %d of the transaction at line %d is in %v", text, j, w.line, p.Account)
						return
					}
					tot.Add(tot, p.Quantity.Int)
				}
				if !b.mixed(w) && tot.Sign() != 0 {
					vBad("balance", "ledger:\n%sthe transaction at line %d sums to %s", text, w.line, tot)
				}
				for j := range got.Postings {
					for k := range got.Postings {
						if j < k && got.Postings[j].Quantity.Int == got.Postings[k].Quantity.Int {
							vBad("shared", "ledger:\n%spostings %d and %d share their quantity", text, j, k)
						}
					}
				}
			}
		})
		vCase(text, len(b.txs) > 2)
	}
}

func TestVerifReject(t *testing.T) {
	r := vRand()
	type job struct{ text, why string }
	jobs := make(chan job)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				code, out := vChild("load", j.text)
				if code == 0 {
					vBad("accepted", "ledger:\n%sis accepted although a transaction %s", j.text, j.why)
				} else if !strings.Contains(out, "v.coin:") {
					vBad("location", "ledger:\n%sis rejected without naming the place: %s", j.text, out)
				}
				vCase(j.text, true)
			}
		}()
	}
	for n := 0; n < vN(240); n++ {
		b := vMakeBook(r, 4, 3)
		b.accts = []string{"A:One", "A:Two", "B:One", "B:Two", "C"}
		b.acom = []int{0, 0, 1, 1, 2}
		b.txs = nil
		q := func() *big.Int { return vQty(r) }
		tx := &vTx{day: 1}
		why := ""
		switch n % 4 {
		case 0:
			k := 1 + r.Intn(4)
			tot := new(big.Int)
			for i := 0; i < k; i++ {
				tx.posts = append(tx.posts, vPost{acct: r.Intn(2), qty: q()})
				tot.Add(tot, tx.posts[i].qty)
			}
			if tot.Sign() == 0 {
				tx.posts[0].qty = new(big.Int).Add(tx.posts[0].qty, big.NewInt(int64(1-2*r.Intn(2))))
			}
			why = "does not balance"
		case 1:
			k := 2 + r.Intn(4)
			for i := 0; i < k; i++ {
				tx.posts = append(tx.posts, vPost{acct: r.Intn(2), qty: q()})
			}
			e := r.Perm(k)
			for i := 0; i < 2+r.Intn(k-1); i++ {
				tx.posts[e[i]].qty = nil
			}
			why = "leaves out more than one quantity"
		case 2:
			k := 2 + r.Intn(4)
			for i := 0; i < k; i++ {
				a := r.Intn(5)
				if i < 2 {
					a = 2 * i
				}
				tx.posts = append(tx.posts, vPost{acct: a, qty: q(), com: b.acom[a]})
			}
			r.Shuffle(k, func(i, j int) { tx.posts[i], tx.posts[j] = tx.posts[j], tx.posts[i] })
			tx.posts[r.Intn(k)].qty = nil
			why = "leaves out a quantity among mixed commodities"
		case 3:
			v := q()
			tx.posts = []vPost{{acct: 0, qty: v, com: 1}, {acct: 1, qty: new(big.Int).Neg(v), com: 0}}
			why = "has a quantity that cannot be converted to the commodity of its account"
		}
		b.txs = append(b.txs, tx)
		if r.Intn(2) == 0 {
			b.txs = append(b.txs, &vTx{day: r.Intn(4), posts: []vPost{{acct: 0, qty: big.NewInt(5)}, {acct: 1}}})
		}
		if r.Intn(2) == 0 {
			b.txs = append([]*vTx{{day: r.Intn(4), posts: []vPost{{acct: 0, qty: big.NewInt(5)}, {acct: 1}}}}, b.txs...)
		}
		text := b.text()
		if strings.Contains(why, "mixed") && r.Intn(2) == 0 { // also when everything could be converted
			for _, x := range b.coms {
				for _, y := range b.coms {
					if x != y {
						text += fmt.Sprintf("\nP 1999/01/01 %s %d %s\n", x.id, 1+r.Intn(3), y.id)
					}
				}
			}
		}
		jobs <- job{text, fmt.Sprint(why)}
	}
	close(jobs)
	wg.Wait()
}
