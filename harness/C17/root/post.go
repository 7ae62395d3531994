package coin

import (
	"fmt"
	"math/big"
	"testing"
	"time"
)

// vPair checks that the postings of t are the given pair, each listed exactly once in its account.
func vPairOK(t *Transaction, p *Posting, a *Account, q *big.Int, c *Commodity) string {
	switch {
	case p.Transaction != t:
		return "refers to another transaction"
	case p.Account != a:
		return "is on " + p.Account.FullName
	case p.Quantity == nil || p.Quantity.Int == nil || p.Quantity.Int.Cmp(q) != 0:
		return fmt.Sprintf("has the quantity %v", p.Quantity)
	case p.Quantity.Commodity != c:
		return "has the commodity " + p.Quantity.Commodity.Id
	}
	n := 0
	for _, x := range a.Postings {
		if x == p {
			n++
		}
	}
	if n != 1 {
		return fmt.Sprintf("is listed %d times by its account", n)
	}
	for i := 1; i < len(a.Postings); i++ {
		if a.Postings[i].Transaction.Posted.Before(a.Postings[i-1].Transaction.Posted) {
			return "leaves its account's postings out of order"
		}
	}
	return ""
}

func TestVerifPost(t *testing.T) {
	vRule("random calls of Post and PostConversion on transactions of random dates (several on one day, several pairs on one transaction), also from an account to itself: both postings, their amounts, balances and places")
	r := vRand()
	for n := 0; n < vN(3000) && !vTime(4); n++ {
		coms := []*Commodity{{Id: "CAD", Decimals: 2}, {Id: "X", Decimals: 5}}
		var accts []*Account
		for i := 0; i < 4; i++ {
			accts = append(accts, &Account{FullName: fmt.Sprintf("A%d", i), Commodity: coms[0]})
		}
		txt := ""
		var txs []*Transaction
		for k := 0; k < 3+r.Intn(12); k++ {
			var tx *Transaction
			if len(txs) > 0 && r.Intn(4) == 0 {
				tx = txs[r.Intn(len(txs))]
			} else {
				tx = &Transaction{Posted: time.Date(2020, 1, 1+r.Intn(6), 12, 0, 0, 0, time.UTC)}
				txs = append(txs, tx)
			}
			was := append([]*Posting{}, tx.Postings...)
			from, to := accts[r.Intn(4)], accts[r.Intn(4)]
			amount := func(c *Commodity) *Amount {
				v := r.Int63n(2001) - 1000
				switch r.Intn(8) {
				case 0:
					v = 0
				case 1:
					v *= 1 << 50
				}
				return &Amount{big.NewInt(v), c}
			}
			a, b := amount(coms[0]), amount(coms[r.Intn(2)])
			var bal *Amount
			if r.Intn(3) == 0 {
				bal = amount(coms[0])
			}
			av := new(big.Int).Set(a.Int)
			bv := new(big.Int).Neg(a.Int)
			conv := r.Intn(2) == 0
			if conv {
				bv.Set(b.Int)
				txt += fmt.Sprintf("conversion %s %s %v %v; ", from.FullName, to.FullName, a.Int, b.Int)
			} else {
				b = a
				txt += fmt.Sprintf("post %s %s %v; ", from.FullName, to.FullName, a.Int)
			}
			if !vTry("post", txt, func() {
				if conv {
					tx.PostConversion(from, a, bal, to, b, nil)
				} else {
					tx.Post(from, to, a, bal)
				}
			}) {
				break
			}
			if len(tx.Postings) != len(was)+2 {
				vBad("count", "%s: %d postings more", txt, len(tx.Postings)-len(was))
				break
			}
			for i, p := range was {
				if tx.Postings[i] != p {
					vBad("kept", "%s: earlier posting %d is replaced", txt, i)
				}
			}
			p, q := tx.Postings[len(was)], tx.Postings[len(was)+1]
			if av.Sign() < 0 {
				p, q = q, p
			}
			if m := vPairOK(tx, p, from, av, a.Commodity); m != "" {
				vBad("first", "%s: the source posting %s", txt, m)
			}
			if m := vPairOK(tx, q, to, bv, b.Commodity); m != "" {
				vBad("second", "%s: the other posting %s", txt, m)
			}
			if p.BalanceAsserted != (bal != nil) || p.Balance != bal || q.BalanceAsserted || q.Balance != nil {
				vBad("balance", "%s: balances %v %v", txt, p.Balance, q.Balance)
			}
		}
		vCase(txt, true)
	}
}
