package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"math/big"
	"sort"
	"testing"

	"github.com/mkobetic/coin"
)

func TestVerifPeriods(t *testing.T) {
	vRule("random ledgers of up to 9 nested accounts and 15 transactions around year ends, leap days and over several years: the aggregated register by week, month, quarter or year and by payee or tags, with and without sub-accounts, and the totals it is made from, against sums computed from the description of the ledger (own calendar arithmetic)")
	r := vRand()
	for n := 0; n < vN(8000) && !vTime(8); n++ {
		l := vMakeLedger(r)
		in := l.text()
		period := []string{"", "w", "m", "q", "y"}[r.Intn(5)]
		category := []string{"", "bp", "bt"}[r.Intn(3)]
		if period == "" && category == "" {
			period = "m"
		}
		recurse := r.Intn(2) == 0
		acct := r.Intn(len(l.accts))
		var args []string
		if period != "" {
			args = append(args, "-"+period)
		}
		if category != "" {
			args = append(args, "-"+category)
		}
		if recurse {
			args = append(args, "-r")
		}
		args = append(args, "-g", "99", "-l", "99", "-o", "csv", l.accts[acct])
		what := fmt.Sprintf("register %q of\n%s", args, in)
		ok := vTry("register", what, func() {
			vLoadMain(in)
			cmd := (&cmdRegister{}).newCommand("register").(*cmdRegister)
			cmd.Parse(args)
			// the totals themselves
			for a := range l.accts {
				ts := &timeTotals{timeReducer: cmd.period(), categoryReducer: cmd.category()}
				acc := coin.AccountsByName[l.accts[a]]
				var before []*big.Int
				for _, p := range acc.Postings {
					before = append(before, new(big.Int).Set(p.Quantity.Int))
				}
				for _, p := range acc.Postings {
					ts.add(p)
				}
				sums := map[vCell]*big.Int{}
				for _, s := range l.of(a) {
					c := vCell{s.period(period), s.category(category)}
					if sums[c] == nil {
						sums[c] = new(big.Int)
					}
					sums[c].Add(sums[c], big.NewInt(s.qty))
				}
				list := ts.all
				if period == "" && ts.current != nil {
					list = append(list, ts.current)
				}
				cells := 0
				for i, tt := range list {
					if i > 0 && !list[i-1].Time.Before(tt.Time) {
						vBad("order", "%s\n%s: the period %s comes after %s", what, l.accts[a], tt.Time, list[i-1].Time)
					}
					key := ""
					if period != "" {
						key = tt.Time.Format(ts.format)
					}
					check := func(cat string, amt *coin.Amount) {
						cells++
						want := sums[vCell{key, cat}]
						if want == nil || amt.Int.Cmp(want) != 0 {
							vBad("sum", "%s\n%s: the total of period %q category %q is %v hundredths, should be %v", what, l.accts[a], key, cat, amt.Int, want)
						}
					}
					if tt.total != nil {
						check("", tt.total)
					}
					for cat, amt := range tt.totals {
						check(cat, amt)
					}
				}
				if cells != len(sums) {
					vBad("cells", "%s\n%s: %d period and category totals, should be %d", what, l.accts[a], cells, len(sums))
				}
				for i, p := range acc.Postings { // adding must not change the postings
					if p.Quantity.Int.Cmp(before[i]) != 0 {
						vBad("posting", "%s\n%s: posting %d changed from %v to %v", what, l.accts[a], i, before[i], p.Quantity.Int)
					}
				}
			}
			// the report
			var out bytes.Buffer
			cmd.execute(&out)
			rows, err := csv.NewReader(&out).ReadAll()
			if err != nil {
				vBad("csv", "%s\nnot csv: %v", what, err)
				return
			}
			tables := map[string]map[vCell]*big.Int{}
			_, cells := l.table(acct, period, category, recurse)
			for a := range l.accts {
				if l.below(acct, a) {
					sums, any := l.table(a, period, category, recurse)
					if len(any) > 0 {
						label := l.accts[a][len(l.accts[acct]):]
						if a == acct {
							label = coin.AccountsByName[l.accts[a]].Name
						}
						tables[label] = sums
					}
				}
			}
			if len(cells) == 0 {
				if len(rows) != 0 {
					vBad("rows", "%s\nnothing to report, but %d rows", what, len(rows))
				}
				return
			}
			var keys []vCell
			for c := range cells {
				keys = append(keys, c)
			}
			sort.Slice(keys, func(i, j int) bool {
				if keys[i].period != keys[j].period {
					return keys[i].period < keys[j].period
				}
				return keys[i].category < keys[j].category
			})
			skip := 0
			if period != "" {
				skip++
			}
			if category != "" {
				skip++
			}
			if len(rows) != len(keys)+1 || len(rows[0]) != skip+len(tables) {
				vBad("rows", "%s\n%d rows of %d columns, should be %d of %d: %v", what, len(rows), len(rows[0]), len(keys)+1, skip+len(tables), rows)
				return
			}
			for i, row := range rows[1:] {
				k := 0
				if period != "" {
					if row[0] != keys[i].period {
						vBad("period", "%s\nrow %d is for %s, should be %s", what, i, row[0], keys[i].period)
						return
					}
					k++
				}
				if category != "" && row[k] != keys[i].category {
					vBad("category", "%s\nrow %d is for %q, should be %q", what, i, row[k], keys[i].category)
					return
				}
				for j := skip; j < len(row); j++ {
					sums := tables[rows[0][j]]
					if sums == nil {
						vBad("column", "%s\nunexpected column %q", what, rows[0][j])
						return
					}
					want := sums[keys[i]]
					if want == nil {
						want = new(big.Int)
					}
					if row[j] != vHundredths(want) {
						vBad("cell", "%s\n%s, %v: %s, should be %s", what, rows[0][j], keys[i], row[j], vHundredths(want))
						return
					}
				}
			}
		})
		vCase(what, ok && len(l.posts) > 1)
	}
}
