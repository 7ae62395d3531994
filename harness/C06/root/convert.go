package coin

import (
	"fmt"
	"math/big"
	"sort"
	"testing"
	"time"
)

func vPow(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

func TestVerifConvert(t *testing.T) {
	vRule("random markets of 2 to 6 commodities with random latest prices (cycles, dead ends, several histories): the result must be in the target commodity, use the direct latest price when there is one, equal the value along some simple chain of latest prices otherwise, be found whenever there is such a chain, and not depend on map order")
	r := vRand()
	for n := 0; n < vN(8000) && !vTime(8); n++ {
		k := 2 + r.Intn(5)
		cs := make([]*Commodity, k)
		for i := range cs {
			cs[i] = &Commodity{Id: string(rune('A' + (i*7+n)%26)), Decimals: r.Intn(5)}
		}
		desc := ""
		type edge struct{ f, t int }
		for i := range cs {
			for j := range cs {
				if i == j || r.Intn(100) > 35 {
					continue
				}
				for q := 1 + r.Intn(2); q > 0; q-- {
					v := big.NewInt(int64(r.Intn(2000000) + 1))
					cs[i].AddPrice(&Price{Commodity: cs[i], Currency: cs[j], Value: NewAmount(v, cs[j]), Time: time.Unix(int64(q)*86400, 0)})
					desc += fmt.Sprintf(" %s=%s/10^%d %s;", cs[i].Id, v, cs[j].Decimals, cs[j].Id)
				}
			}
		}
		from, to := r.Intn(k), r.Intn(k)
		amt := big.NewInt(int64(r.Intn(20000001) - 10000000))
		in := fmt.Sprintf("%s/10^%d %s -> %s given%s", amt, cs[from].Decimals, cs[from].Id, cs[to].Id, desc)
		// values over all simple chains
		step := func(v *big.Int, i, j int) *big.Int {
			w := new(big.Int).Mul(cs[i].Prices[cs[j]][0].Value.Int, v)
			return w.Quo(w, vPow(cs[i].Decimals))
		}
		var vals []*big.Int
		vis := make([]bool, k)
		var walk func(v *big.Int, i int)
		walk = func(v *big.Int, i int) {
			if i == to {
				vals = append(vals, v)
				return
			}
			vis[i] = true
			for j := range cs {
				if !vis[j] && cs[i].Prices[cs[j]] != nil {
					walk(step(v, i, j), j)
				}
			}
			vis[i] = false
		}
		walk(amt, from)
		vCase(in, from != to && len(vals) > 0)
		vTry("convert", in, func() {
			var first *Amount
			for rep := 0; rep < 4; rep++ {
				a := NewAmount(new(big.Int).Set(amt), cs[from])
				res, err := cs[to].Convert(a, cs[from])
				if a.Int.Cmp(amt) != 0 || a.Commodity != cs[from] {
					vBad("mutates", "%s: the converted amount was changed", in)
				}
				if err != nil {
					if len(vals) > 0 {
						vBad("missed", "%s: %v although a chain of prices exists", in, err)
					}
					return
				}
				if res.Commodity != cs[to] {
					vBad("commodity", "%s: result is in %s", in, res.Commodity.Id)
				}
				ok := false
				for _, v := range vals {
					ok = ok || v.Cmp(res.Int) == 0
				}
				if !ok {
					vBad("value", "%s: result %s is not the value along any chain of latest prices %v", in, res.Int, vals)
				}
				if from != to && cs[from].Prices[cs[to]] != nil && step(amt, from, to).Cmp(res.Int) != 0 {
					vBad("direct", "%s: result %s does not use the direct price (%s)", in, res.Int, step(amt, from, to))
				}
				if first != nil && first.Int.Cmp(res.Int) != 0 {
					vBad("unstable", "%s: results differ: %s and %s", in, first.Int, res.Int)
				}
				first = res
				// adding in converts first; a failed conversion changes nothing
				s := NewAmount(big.NewInt(777), cs[to])
				if err := s.AddIn(a); err != nil || s.Int.Cmp(new(big.Int).Add(big.NewInt(777), res.Int)) != 0 {
					vBad("addin", "%s: adding in to 777 gives %v, %v", in, s.Int, err)
				}
			}
		})
		for _, c := range cs {
			got := c.Currencies()
			ok := len(got) == len(c.Prices) && sort.SliceIsSorted(got, func(i, j int) bool { return got[i].Id < got[j].Id })
			for _, g := range got {
				ok = ok && c.Prices[g] != nil
			}
			if !ok {
				vBad("currencies", "%s: currencies of %s listed as %v", in, c.Id, got)
			}
		}
	}
}
