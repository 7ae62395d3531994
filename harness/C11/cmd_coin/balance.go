package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/mkobetic/coin"
)

type vBal struct {
	acct int
	y, m int
	d    int
	qty  int64 // hundredths, multiples of 2048
}

func TestVerifBalance(t *testing.T) {
	vRule("random account trees of up to 12 accounts in two commodities with a fixed rate, up to 16 postings, the balance of every account with and without date bounds, levels and zero accounts: own and cumulative figures against sums over the description of the ledger; with the accounts declared in any order and the postings compared before and after")
	r := vRand()
	for n := 0; n < vN(12000) && !vTime(8); n++ {
		one := r.Intn(2) == 0
		accts, com := []string{"R"}, []string{"CAD"}
		for k := r.Intn(12); k > 0; k-- {
			a := accts[r.Intn(len(accts))] + ":" + string(rune('A'+k))
			c := "CAD"
			if !one && r.Intn(3) == 0 {
				c = "BBB"
			}
			accts, com = append(accts, a), append(com, c)
		}
		var posts []vBal
		for k := r.Intn(17); k > 0; k-- {
			y, m, d := vCivil(vDayNo(2021, 12, 20) + r.Intn(30))
			q := int64(r.Intn(41)-20) * 2048
			if one && r.Intn(4) == 0 {
				q += int64(r.Intn(100))
			}
			if r.Intn(3) == 0 && len(posts) > 0 {
				q = -posts[r.Intn(len(posts))].qty
			}
			posts = append(posts, vBal{r.Intn(len(accts)), y, m, d, q})
		}
		var s strings.Builder
		s.WriteString("commodity CAD\n  format 1.00 CAD\n\ncommodity BBB\n  format 1.00 BBB\n\nP 2020/01/01 BBB 2.00 CAD\n\nP 2020/01/01 CAD 0.50 BBB\n\n")
		for _, i := range r.Perm(len(accts)) {
			s.WriteString("account " + accts[i] + "\n  commodity " + com[i] + "\n\n")
		}
		s.WriteString("account ZC\n  commodity CAD\n\naccount ZB\n  commodity BBB\n\n")
		for _, p := range posts {
			fmt.Fprintf(&s, "%04d/%02d/%02d x\n  %s  %s %s\n  Z%s  %s %s\n\n", p.y, p.m, p.d, accts[p.acct], vHundredths(big.NewInt(p.qty)), com[p.acct], com[p.acct][:1], vHundredths(big.NewInt(-p.qty)), com[p.acct])
		}
		in := s.String()
		top := r.Intn(len(accts))
		var args []string
		lo, hi := 0, 99999999
		if r.Intn(3) == 0 {
			y, m, d := vCivil(vDayNo(2021, 12, 18) + r.Intn(34))
			args = append(args, "-b", fmt.Sprintf("%04d/%02d/%02d", y, m, d))
			lo = y*10000 + m*100 + d
		}
		if r.Intn(3) == 0 {
			y, m, d := vCivil(vDayNo(2021, 12, 18) + r.Intn(34))
			args = append(args, "-e", fmt.Sprintf("%04d/%02d/%02d", y, m, d))
			hi = y*10000 + m*100 + d
		}
		zero := r.Intn(2) == 0
		if zero {
			args = append(args, "-z")
		}
		level := r.Intn(5)
		if level > 0 {
			args = append(args, "-l", fmt.Sprint(level))
		}
		args = append(args, accts[top])
		what := fmt.Sprintf("balance %q of\n%s", args, in)
		ok := vTry("balance", what, func() {
			vLoadMain(in)
			var before []string
			for _, tr := range coin.Transactions {
				for _, p := range tr.Postings {
					before = append(before, fmt.Sprint(p.Quantity.Int, p.Balance.Int))
				}
			}
			cmd := (&cmdBalance{}).newCommand("balance").(*cmdBalance)
			cmd.Parse(args)
			var out bytes.Buffer
			cmd.execute(&out)
			k := 0
			for _, tr := range coin.Transactions {
				for _, p := range tr.Postings {
					if now := fmt.Sprint(p.Quantity.Int, p.Balance.Int); now != before[k] {
						vBad("changed", "%s\nposting %d changes from %s to %s", what, k, before[k], now)
					}
					k++
				}
			}
			own := make([]*big.Rat, len(accts))
			for i := range own {
				own[i] = new(big.Rat)
			}
			for _, p := range posts {
				if day := p.y*10000 + p.m*100 + p.d; day >= lo && day < hi {
					own[p.acct].Add(own[p.acct], big.NewRat(p.qty, 100))
				}
			}
			rate := map[string]*big.Rat{"CAD": big.NewRat(1, 1), "BBB": big.NewRat(2, 1)}
			want := map[string]string{}
			for i, a := range accts {
				if a != accts[top] && !strings.HasPrefix(a, accts[top]+":") || level > 0 && strings.Count(a, ":")+1 > level {
					continue
				}
				cum := new(big.Rat)
				for j, b := range accts {
					if a == b || strings.HasPrefix(b, a+":") {
						cum.Add(cum, new(big.Rat).Mul(own[j], rate[com[j]]))
					}
				}
				cum.Quo(cum, rate[com[i]])
				if zero || cum.Sign() != 0 {
					want[a] = own[i].FloatString(2) + "|" + cum.FloatString(2) + " " + com[i]
				}
			}
			seen := 0
			for _, line := range strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n") {
				if line == "" {
					continue
				}
				f := strings.Split(line, "|")
				if len(f) != 3 {
					vBad("line", "%s\nprints %q", what, line)
					return
				}
				got := strings.TrimSpace(f[0]) + "|" + strings.Join(strings.Fields(f[1]), " ")
				name := strings.TrimSpace(f[2])
				if want[name] == "" {
					vBad("extra", "%s\nprints %q, which should not be there", what, line)
				} else if want[name] != got {
					vBad("figure", "%s\n%s has %s, should be %s", what, name, got, want[name])
				}
				delete(want, name)
				seen++
			}
			for a, w := range want {
				vBad("missing", "%s\n%s with %s is not printed", what, a, w)
			}
		})
		vCase(what, ok && len(posts) > 1 && len(accts) > 2)
	}
}

func TestVerifRootBalance(t *testing.T) {
	vRule("random transactions between accounts of two commodities: the figures of the root account, without and with an account given, and of every other account")
	r := vRand()
	accts := []string{"A", "A:B", "A:B:C", "D", "E:F", "Z"} // Z is in BBB at 2 CAD
	for n := 0; n < vN(2000) && !vTime(14); n++ {
		s := "commodity CAD\n  format 1.00 CAD\n\ncommodity BBB\n  format 1.00 BBB\n\nP 2020/01/01 BBB 2.00 CAD\n\nP 2020/01/01 CAD 0.50 BBB\n\n"
		for i, a := range accts {
			s += "account " + a + "\n  commodity " + []string{"CAD", "BBB"}[i/5] + "\n\n"
		}
		own := map[string]int64{} // in hundredths of CAD
		for k := r.Intn(5); k > 0; k-- {
			a, q, z := accts[r.Intn(5)], int64(r.Intn(2001)-1000), int64(r.Intn(2001)-1000)
			own[a] += q
			own["Z"] += 2 * z
			s += fmt.Sprintf("2021/%02d/%02d x\n  %s  %s CAD\n  Z  %s BBB\n\n", 1+r.Intn(12), 1+r.Intn(28), a, vHundredths(big.NewInt(q)), vHundredths(big.NewInt(z)))
		}
		args := []string{"-z"}
		if r.Intn(2) == 0 {
			args = append(args, "Root")
		}
		what := fmt.Sprintf("balance %q of\n%s", args, s)
		want := map[string]string{}
		for _, a := range append([]string{"Root", "Unbalanced", "E"}, accts...) {
			cum, o, id := int64(0), own[a], "CAD"
			for b, v := range own {
				if a == "Root" || a == b || strings.HasPrefix(b, a+":") {
					cum += v
				}
			}
			if a == "Z" {
				cum, o, id = cum/2, o/2, "BBB"
			}
			want[a] = vHundredths(big.NewInt(o)) + " " + vHundredths(big.NewInt(cum)) + " " + id
		}
		ok := vTry("root balance", what, func() {
			vLoadMain(s)
			cmd := (&cmdBalance{}).newCommand("balance").(*cmdBalance)
			cmd.Parse(args)
			var out bytes.Buffer
			cmd.execute(&out)
			for _, line := range strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n") {
				f := strings.Split(line, "|")
				if len(f) != 3 {
					vBad("line", "%s\nprints %q", what, line)
					return
				}
				name := strings.TrimSpace(f[2])
				if got := strings.TrimSpace(f[0]) + " " + strings.Join(strings.Fields(f[1]), " "); got != want[name] {
					vBad("root figure", "%s\n%s has %s, should be %s", what, name, got, want[name])
				}
				delete(want, name)
			}
			for a, w := range want {
				vBad("root missing", "%s\n%s with %s is not printed", what, a, w)
			}
		})
		vCase(what, ok && len(own) > 1)
	}
}
