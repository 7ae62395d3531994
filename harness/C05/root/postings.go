package coin

import (
	"fmt"
	"testing"
	"time"
)

func TestVerifPostings(t *testing.T) {
	vRule("random histories of adding, deleting, moving postings and dropping transactions over 3 accounts with few distinct dates, replayed against plain lists: each account must list exactly its postings, in date order, equal dates in order of insertion, and a move or drop must touch that posting only")
	r := vRand()
	for n := 0; n < vN(20000) && !vTime(8); n++ {
		as := []*Account{{Name: "A", FullName: "A"}, {Name: "B", FullName: "B"}, {Name: "C", FullName: "C"}}
		model := map[*Account][]*Posting{}
		var trs []*Transaction
		days := 1 + r.Intn(5)
		clocks := []int64{43200} // imported transactions carry the time of day
		if r.Intn(3) == 0 {
			clocks = []int64{0, 43200, 43201, 86399}
		}
		name := map[*Posting]string{}
		show := func(ps []*Posting) string {
			s := ""
			for _, p := range ps {
				s += name[p] + " "
			}
			return s
		}
		ins := func(a *Account, p *Posting) {
			l := model[a]
			i := 0
			for i < len(l) && !l[i].Transaction.Posted.After(p.Transaction.Posted) {
				i++
			}
			model[a] = append(append(append([]*Posting{}, l[:i]...), p), l[i:]...)
		}
		del := func(a *Account, p *Posting) {
			var l []*Posting
			for _, q := range model[a] {
				if q != p {
					l = append(l, q)
				}
			}
			model[a] = l
		}
		hist := ""
		ok := true
		for op := 0; op < 4+r.Intn(20) && ok; op++ {
			var f func()
			switch k := r.Intn(10); {
			case k < 5 || len(trs) == 0:
				tr := &Transaction{Posted: time.Unix(int64(r.Intn(days))*86400+clocks[r.Intn(len(clocks))], 0).UTC()}
				trs = append(trs, tr)
				m := 1 + r.Intn(4)
				var ps []*Posting
				var to []*Account
				hist += fmt.Sprintf(" day%d:", tr.Posted.Unix()/86400)
				for j := 0; j < m; j++ {
					a := as[r.Intn(3)]
					p := &Posting{Transaction: tr, Account: a}
					name[p] = fmt.Sprintf("%d.%d@%d", len(trs), j, tr.Posted.Unix()/86400)
					tr.Postings = append(tr.Postings, p)
					ps, to = append(ps, p), append(to, a)
					ins(a, p)
					hist += fmt.Sprintf(" add %s to %s", name[p], a.Name)
				}
				again := r.Intn(4) == 0
				f = func() {
					for j, p := range ps {
						to[j].addPosting(p)
					}
					if again {
						to[0].addPosting(ps[0])
					}
				}
				if again {
					hist += " add first again"
				}
			case k < 8:
				tr := trs[r.Intn(len(trs))]
				if len(tr.Postings) == 0 {
					continue
				}
				p := tr.Postings[r.Intn(len(tr.Postings))]
				a := as[r.Intn(3)]
				hist += fmt.Sprintf(" move %s to %s", name[p], a.Name)
				if p.Account != a {
					del(p.Account, p)
					ins(a, p)
				}
				f = func() {
					p.MoveTo(a)
					if p.Account != a {
						vBad("moved", "%s: %s not moved to %s", hist, name[p], a.Name)
					}
				}
			case k < 9:
				a := as[r.Intn(3)]
				tr := trs[r.Intn(len(trs))]
				if len(tr.Postings) == 0 {
					continue
				}
				p := tr.Postings[r.Intn(len(tr.Postings))]
				hist += fmt.Sprintf(" delete %s from %s (in %s)", name[p], a.Name, p.Account.Name)
				if a != p.Account {
					f = func() { a.deletePosting(p) } // not listed there: nothing may happen
				} else {
					f = func() { a.deletePosting(p); a.addPosting(p) }
					del(a, p)
					ins(a, p)
				}
			default:
				tr := trs[r.Intn(len(trs))]
				hist += " drop"
				for _, p := range tr.Postings {
					hist += " " + name[p]
					del(p.Account, p)
				}
				f = func() {
					tr.drop()
					if len(tr.Postings) != 0 {
						vBad("dropped", "%s: the transaction keeps postings", hist)
					}
				}
			}
			if !vTry("history", hist, f) {
				break
			}
			for _, a := range as {
				same := len(a.Postings) == len(model[a])
				for i := 0; same && i < len(a.Postings); i++ {
					same = a.Postings[i] == model[a][i]
				}
				if !same {
					vBad("list", "history%s: account %s lists [%s], should list [%s]", hist, a.Name, show(a.Postings), show(model[a]))
					ok = false
				}
			}
		}
		vCase(hist, len(hist) > 120)
	}
}
