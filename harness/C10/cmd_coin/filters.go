package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/mkobetic/coin"
)

var vD0 = time.Date(2023, 12, 28, 12, 0, 0, 0, time.UTC)

func vBound(r *rand.Rand) (d coin.Date, s string) {
	if r.Intn(4) == 0 {
		return d, "-"
	}
	n := r.Intn(18) - 2
	d.Time = vD0.AddDate(0, 0, n)
	if r.Intn(5) == 0 {
		d.Time = d.Time.Add(time.Hour * time.Duration(r.Intn(24)-12))
	}
	return d, fmt.Sprint(n)
}

func vTagSet(r *rand.Rand) coin.Tags {
	if r.Intn(3) == 0 {
		return nil
	}
	t := coin.Tags{}
	for n := 1 + r.Intn(2); n > 0; n-- {
		t[[]string{"food", "trip", "Foot"}[r.Intn(3)]] = []string{"", "rome", "oslo"}[r.Intn(3)]
	}
	return t
}

func vTagged(exp string, tags coin.Tags) bool {
	inv := strings.HasPrefix(exp, "!")
	k, v, has := strings.Cut(strings.ToLower(strings.TrimPrefix(exp, "!")), ":")
	for tk, tv := range tags {
		if (strings.Contains(strings.ToLower(tk), k) && (!has || strings.Contains(strings.ToLower(tv), v))) != inv {
			return true
		}
	}
	return false
}

func TestVerifFilters(t *testing.T) {
	vRule("random date-ordered posting lists of up to 14 entries for several accounts, every combination of begin, end, payee (plain and, for register, inverted) and tag filters, applied to each account in turn by the same command, against a linear scan; and the ledger's transactions by begin and end")
	r := vRand()
	for n := 0; n < vN(30000) && !vTime(8); n++ {
		reg, bal, st := &cmdRegister{}, &cmdBalance{}, &cmdStats{}
		b, bs := vBound(r)
		e, es := vBound(r)
		payee := []string{"", "", "shop", "SHOP", "!shop", "o", "!nobody", "nobody"}[r.Intn(8)]
		tag := []string{"", "", "food", "!food", "food:rome", "!foo:os", "trip:"}[r.Intn(7)]
		reg.begin, reg.end, reg.payee, reg.tag = b, e, payee, tag
		bal.begin, bal.end, bal.payee, bal.tag = b, e, strings.TrimPrefix(payee, "!"), tag
		st.begin, st.end = b, e
		in := fmt.Sprintf("begin %s end %s payee %q tag %q", bs, es, payee, tag)
		for acct := 0; acct < 1+r.Intn(3); acct++ {
			var ps []*coin.Posting
			coin.Transactions = nil
			in := fmt.Sprintf("%s account %d:", in, acct)
			for k, d := r.Intn(15), r.Intn(3); k > 0; k-- {
				tr := &coin.Transaction{Posted: vD0.AddDate(0, 0, d), Description: []string{"Shop", "a shoe", "Bank", "Post Office"}[r.Intn(4)], Tags: vTagSet(r)}
				p := &coin.Posting{Transaction: tr, Tags: vTagSet(r)}
				ps = append(ps, p)
				coin.Transactions = append(coin.Transactions, tr)
				in += fmt.Sprintf(" %d/%s/%v/%v", d, tr.Description, tr.Tags, p.Tags)
				d += r.Intn(4) * r.Intn(2)
			}
			keep := func(p *coin.Posting, payee string) bool {
				d := p.Transaction.Posted
				if !b.Time.IsZero() && d.Before(b.Time) || !e.Time.IsZero() && !d.Before(e.Time) {
					return false
				}
				if word, inv := strings.CutPrefix(payee, "!"); payee != "" && strings.Contains(strings.ToLower(p.Transaction.Description), strings.ToLower(word)) == inv {
					return false
				}
				return tag == "" || vTagged(tag, p.Tags) || vTagged(tag, p.Transaction.Tags)
			}
			same := func(what string, got []*coin.Posting, payee string) {
				i := 0
				for _, p := range ps {
					if !keep(p, payee) {
						continue
					}
					if i >= len(got) || got[i] != p {
						vBad(what, "%s: %s keeps %d postings, and misses one of %s %s", in, what, len(got), p.Transaction.Posted.Format(coin.DateFormat), p.Transaction.Description)
						return
					}
					i++
				}
				if i != len(got) {
					vBad(what, "%s: %s keeps %d postings, should be %d", in, what, len(got), i)
				}
			}
			orig := append([]*coin.Posting{}, ps...)
			vTry("register", in, func() { same("register", reg.trim(ps), payee) })
			vTry("balance", in, func() { same("balance", bal.trim(ps), bal.payee) })
			for i := range ps {
				if ps[i] != orig[i] {
					vBad("changed", "%s: the account's own list changes", in)
				}
			}
			vTry("transactions", in, func() {
				got := st.transactions()
				i := 0
				for _, tr := range coin.Transactions {
					if !b.Time.IsZero() && tr.Posted.Before(b.Time) || !e.Time.IsZero() && !tr.Posted.Before(e.Time) {
						continue
					}
					if i >= len(got) || got[i] != tr {
						vBad("transactions", "%s: %d transactions are selected, one is missing", in, len(got))
						return
					}
					i++
				}
				if i != len(got) {
					vBad("transactions", "%s: %d transactions are selected, should be %d", in, len(got), i)
				}
			})
			vCase(in, len(ps) > 1)
		}
	}
}

// TestVerifRecursive: register -r lists the postings of the account and those below it that the filters keep, each once, in date order.
func TestVerifRecursive(t *testing.T) {
	r := vRand()
	for n := 0; n < vN(1500) && !vTime(14); n++ {
		accts := []string{"A", "A:Bb", "A:Bb:Cc", "A:Dd"}
		var s strings.Builder
		s.WriteString("commodity CAD\n  format 1.00 CAD\n\naccount Other\n  commodity CAD\n\n")
		for _, a := range accts {
			s.WriteString("account " + a + "\n  commodity CAD\n\n")
		}
		type row struct {
			day       int
			acct, num string
			keep      bool
		}
		var rows []row
		lo, hi := r.Intn(12), 1+r.Intn(14)
		word := []string{"", "shop", "!shop"}[r.Intn(3)]
		span := []int{2, 12}[r.Intn(2)]
		for k := r.Intn([]int{8, 40}[r.Intn(2)]); k > 0; k-- {
			w := row{day: 1 + r.Intn(span), acct: accts[r.Intn(len(accts))], num: fmt.Sprintf("N%dx", len(rows))}
			payee := []string{"Shop", "Bank"}[r.Intn(2)]
			fmt.Fprintf(&s, "2001/01/%02d %s %s\n  %s  %d.00 CAD\n  Other\n\n", w.day, payee, w.num, w.acct, 1+r.Intn(90))
			w.keep = (lo == 0 || w.day >= lo) && (lo != 0 && lo >= hi || w.day < hi) && (word == "" || (payee == "Shop") == (word == "shop"))
			rows = append(rows, w)
		}
		args := []string{"-r", "-e", fmt.Sprintf("2001/01/%02d", hi)}
		if lo > 0 {
			args = append(args, "-b", fmt.Sprintf("2001/01/%02d", lo))
		}
		if lo > 0 && lo >= hi { // only the begin
			args = []string{"-r", "-b", fmt.Sprintf("2001/01/%02d", lo)}
		}
		if word != "" {
			args = append(args, "-p", word)
		}
		in := fmt.Sprintf("%q %s", args, s.String())
		vCase(in, len(rows) > 1)
		vTry("recursive", in, func() {
			vLoadMain(s.String())
			cmd := (*cmdRegister)(nil).newCommand("register").(*cmdRegister)
			if err := cmd.FlagSet.Parse(append(args, "A")); err != nil {
				vBad("recursive", "%s: flags refused: %s", in, err)
				return
			}
			var w bytes.Buffer
			cmd.execute(&w)
			lines := strings.Split(w.String(), "\n")
			last, total := "", 0
			for _, l := range lines[1:] {
				if strings.HasPrefix(l, "2001/") {
					if l[:10] < last {
						vBad("recursive", "%s: not in date order:\n%s", in, w.String())
						return
					}
					last = l[:10]
					total++
				}
			}
			for _, x := range rows {
				count := 0
				for _, l := range lines {
					if strings.HasPrefix(l, fmt.Sprintf("2001/01/%02d", x.day)) && strings.Contains(l, x.num) {
						count++
					}
				}
				if x.keep {
					total--
				}
				if want := map[bool]int{true: 1}[x.keep]; count != want {
					vBad("recursive", "%s: the posting %s is listed %d times, should be %d:\n%s", in, x.num, count, want, w.String())
					return
				}
			}
			if total != 0 {
				vBad("recursive", "%s: %d lines too many:\n%s", in, total, w.String())
			}
		})
	}
}
