package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"testing"
	"time"

	"github.com/mkobetic/coin"
)

type vSeq []vPoint
type vPoint struct {
	day  int
	cats map[string]int64 // "" alone without categories
}

func vMakeSeq(r *rand.Rand, n, span int, cats bool) (s vSeq) {
	seen := map[int]bool{}
	for ; n > 0; n-- {
		d := r.Intn(span)
		if seen[d] {
			continue
		}
		seen[d] = true
		p := vPoint{d, map[string]int64{}}
		if cats {
			for k := 1 + r.Intn(3); k > 0; k-- {
				p.cats[[]string{"a", "b", "c", ""}[r.Intn(4)]] = int64(r.Intn(200) - 100)
			}
		} else {
			p.cats[""] = int64(r.Intn(200) - 100)
		}
		s = append(s, p)
	}
	sort.Slice(s, func(i, j int) bool { return s[i].day < s[j].day })
	return s
}

var vCAD *coin.Commodity
var vEpoch = time.Date(2020, 1, 1, 12, 0, 0, 0, time.UTC)

func vAmt(n int64) *coin.Amount { return coin.NewAmount(big.NewInt(n), vCAD) }

func (s vSeq) build(timed, cats bool) *timeTotals {
	ts := &timeTotals{}
	if timed {
		ts.timeReducer = &month
	}
	if cats {
		ts.categoryReducer = &payees
	}
	for _, p := range s {
		tt := &timeTotal{}
		if timed {
			tt.Time = vEpoch.AddDate(0, 0, p.day)
		}
		if cats {
			tt.totals = map[string]*coin.Amount{}
			for c, n := range p.cats {
				tt.totals[c] = vAmt(n)
			}
		} else {
			tt.total = vAmt(p.cats[""])
		}
		if timed {
			ts.all = append(ts.all, tt)
		}
		ts.current = tt
	}
	return ts
}

// read gives the sequence back; an error describes what is wrong with it.
func vRead(ts *timeTotals, timed, cats bool) (s vSeq, err error) {
	list := ts.all
	if timed && (len(list) == 0) != (ts.current == nil) || timed && len(list) > 0 && list[len(list)-1] != ts.current {
		return nil, fmt.Errorf("the latest total is not the last one")
	}
	if !timed {
		if len(list) > 0 {
			return nil, fmt.Errorf("has periods")
		}
		if ts.current != nil {
			list = append(list, ts.current)
		}
	}
	for _, tt := range list {
		p := vPoint{0, map[string]int64{}}
		if timed {
			p.day = int(tt.Time.Sub(vEpoch) / (24 * time.Hour))
		}
		if cats {
			if tt.total != nil || tt.totals == nil {
				return nil, fmt.Errorf("day %d: not by category", p.day)
			}
			for c, a := range tt.totals {
				p.cats[c] = a.Int.Int64()
			}
		} else {
			if tt.total == nil {
				return nil, fmt.Errorf("day %d: no total", p.day)
			}
			p.cats[""] = tt.total.Int.Int64()
		}
		s = append(s, p)
	}
	return s, nil
}

func vSum(a, b vSeq, keysOnly bool) vSeq {
	m := map[int]map[string]int64{}
	put := func(s vSeq, f int64) {
		for _, p := range s {
			if m[p.day] == nil {
				m[p.day] = map[string]int64{}
			}
			for c, n := range p.cats {
				m[p.day][c] += n * f
			}
		}
	}
	put(a, 1)
	if keysOnly {
		put(b, 0)
	} else {
		put(b, 1)
	}
	var out vSeq
	for d, c := range m {
		out = append(out, vPoint{d, c})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].day < out[j].day })
	return out
}

func TestVerifMerge(t *testing.T) {
	vRule("random pairs of sequences of up to 7 period totals with any overlap, with and without categories, merged by amount and by key, and again; every limit on the number of accounts over random ledgers, plain and cumulative: against sums computed directly")
	r := vRand()
	vCAD = &coin.Commodity{Id: "CAD", Decimals: 2}
	for n := 0; n < vN(40000) && !vTime(4); n++ {
		timed, cats := r.Intn(5) > 0, r.Intn(2) == 0
		if !timed {
			cats = true
		}
		span, max := 12, 8
		if !timed {
			span, max = 1, 2
		}
		a, b, c := vMakeSeq(r, r.Intn(max), span, cats), vMakeSeq(r, r.Intn(max), span, cats), vMakeSeq(r, r.Intn(max), span, cats)
		keysOnly := r.Intn(3) == 0
		what := fmt.Sprintf("merging %v into %v (keys only: %v), then %v", b, a, keysOnly, c)
		ta, tb, tc := a.build(timed, cats), b.build(timed, cats), c.build(timed, cats)
		vTry("merge", what, func() {
			same := func(name string, ts *timeTotals, want vSeq) bool {
				got, err := vRead(ts, timed, cats)
				if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
					vBad(name, "%s: %s is %v (%v), should be %v", what, name, got, err, want)
					return false
				}
				return true
			}
			if keysOnly {
				ta.mergeKeys(tb)
			} else {
				ta.merge(tb)
			}
			ab := vSum(a, b, keysOnly)
			if !same("the result", ta, ab) || !same("the merged-in sequence", tb, b) {
				return
			}
			ta.merge(tc) // must not reach back into b
			if !same("the second result", ta, vSum(ab, c, false)) || !same("the merged-in sequence later", tb, b) {
				return
			}
			if timed && !cats {
				ta.makeCumulative()
				want := vSum(ab, c, false)
				run := int64(0)
				for i := range want {
					run += want[i].cats[""]
					want[i].cats = map[string]int64{"": run}
				}
				same("the cumulative sequence", ta, want)
				same("the merged-in sequence at the end", tb, b)
				same("the other merged-in sequence at the end", tc, c)
			}
		})
		vCase(what, len(a) > 0 && len(b) > 0)
	}
}

func TestVerifTop(t *testing.T) {
	r := vRand()
	for n := 0; n < vN(8000) && !vTime(6); n++ {
		l := vMakeLedger(r)
		in := l.text()
		period := []string{"", "w", "m", "q", "y"}[r.Intn(5)]
		category := []string{"", "", "bp", "bt"}[r.Intn(4)]
		if period == "" && category == "" {
			period = "y"
		}
		recurse := r.Intn(2) == 0
		cumulative := category == "" && r.Intn(2) == 0
		top := r.Intn(7)
		acct := r.Intn(len(l.accts))
		var args []string
		if period != "" {
			args = append(args, "-"+period)
		}
		if category != "" {
			args = append(args, "-"+category)
		}
		if recurse {
			args = append(args, "-r")
		}
		if cumulative {
			args = append(args, "-c")
		}
		args = append(args, "-g", fmt.Sprint(top), "-l", "99", "-o", "csv", l.accts[acct])
		what := fmt.Sprintf("register %q of\n%s", args, in)
		ok := vTry("register", what, func() {
			vLoadMain(in)
			cmd := (&cmdRegister{}).newCommand("register").(*cmdRegister)
			cmd.Parse(args)
			var out bytes.Buffer
			cmd.execute(&out)
			rows, err := csv.NewReader(&out).ReadAll()
			if err != nil {
				vBad("csv", "%s\nnot csv: %v", what, err)
				return
			}
			type column struct {
				sums map[vCell]*big.Int
				mag  *big.Int
				kept bool
			}
			cols := map[string]*column{}
			_, cells := l.table(acct, period, category, recurse)
			if len(cells) == 0 {
				if len(rows) != 0 {
					vBad("rows", "%s\nnothing to report, but %d rows", what, len(rows))
				}
				return
			}
			total := map[vCell]*big.Int{}
			for c := range cells {
				total[c] = new(big.Int)
			}
			for a := range l.accts {
				if !l.below(acct, a) {
					continue
				}
				sums, any := l.table(a, period, category, recurse)
				if len(any) == 0 {
					continue
				}
				c := &column{sums: sums, mag: new(big.Int)}
				for k, v := range sums {
					c.mag.Add(c.mag, v)
					total[k].Add(total[k], v)
				}
				c.mag.Abs(c.mag)
				label := l.accts[a][len(l.accts[acct]):]
				if a == acct {
					label = coin.AccountsByName[l.accts[a]].Name
				}
				cols[label] = c
			}
			skip := 0
			if period != "" {
				skip++
			}
			if category != "" {
				skip++
			}
			want := len(cols)
			if want > top {
				want = top + 1
			}
			if len(rows) != len(cells)+1 || len(rows[0]) != skip+want {
				vBad("rows", "%s\n%d rows of %d columns, should be %d of %d", what, len(rows), len(rows[0]), len(cells)+1, skip+want)
				return
			}
			if want > top && rows[0][skip+top] != "Other" {
				vBad("remainder", "%s\nthe last of %d columns is %q and not the remainder", what, want, rows[0][skip+top])
				return
			}
			var least *big.Int
			rest := map[vCell]*big.Int{}
			for k, v := range total {
				rest[k] = new(big.Int).Set(v)
			}
			for j, h := range rows[0][skip:] {
				if h == "Other" && j == top {
					continue
				}
				c := cols[h]
				if c == nil || c.kept {
					vBad("column", "%s\nunexpected column %q", what, h)
					return
				}
				c.kept = true
				if least != nil && c.mag.Cmp(least) > 0 {
					vBad("ascending", "%s\n%q with %v comes after a smaller one", what, h, c.mag)
					return
				}
				least = c.mag
				for k, v := range c.sums {
					rest[k].Sub(rest[k], v)
				}
			}
			for h, c := range cols {
				if !c.kept && least != nil && c.mag.Cmp(least) > 0 {
					vBad("largest", "%s\n%q with %v is left out, the least one kept has %v", what, h, c.mag, least)
					return
				}
			}
			run := make([]*big.Int, len(rows[0]))
			for _, row := range rows[1:] {
				var k vCell
				i := 0
				if period != "" {
					k.period = row[0]
					i++
				}
				if category != "" {
					k.category = row[i]
				}
				if !cells[k] {
					vBad("row", "%s\nunexpected row %v", what, k)
					return
				}
				for j := skip; j < len(row); j++ {
					var v *big.Int
					if rows[0][j] == "Other" && j-skip == top {
						v = rest[k]
					} else {
						v = cols[rows[0][j]].sums[k]
					}
					if v == nil {
						v = new(big.Int)
					}
					if cumulative {
						if run[j] == nil {
							run[j] = new(big.Int)
						}
						v = run[j].Add(run[j], v)
					}
					if row[j] != vHundredths(v) {
						vBad("cell", "%s\n%s, %v: %s, should be %s", what, rows[0][j], k, row[j], vHundredths(v))
						return
					}
				}
			}
		})
		vCase(what, ok && len(l.posts) > 1)
	}
}

// accounts of commodities of different precisions: the largest are those of the largest value, not of the most digits
func TestVerifLargest(t *testing.T) {
	vRule("limits on up to 5 accounts of commodities of 0 to 4 decimals that leave at most one account out: the kept ones are the largest by value, in descending order")
	r := vRand()
	for n := 0; n < vN(3000) && !vTime(9); n++ {
		ats := accountTotals{}
		k := 1 + r.Intn(5)
		vals := map[*coin.Account]*big.Rat{}
		what := ""
		for i := 0; i < k; i++ {
			c := &coin.Commodity{Id: fmt.Sprint("C", i), Decimals: r.Intn(5)}
			a := &coin.Account{Name: fmt.Sprint("A", i), FullName: fmt.Sprint("A", i), Commodity: c}
			v := int64(r.Intn(400) - 200)
			if r.Intn(2) == 0 {
				v *= 100
			}
			ts := ats.newTotals(a, &month, nil)
			one := &timeTotal{Time: vEpoch, total: coin.NewAmount(big.NewInt(v), c)}
			ts.all, ts.current = []*timeTotal{one}, one
			d := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(c.Decimals)), nil)
			vals[a] = new(big.Rat).Abs(new(big.Rat).SetFrac(big.NewInt(v), d))
			what += fmt.Sprintf("%s=%v ", a.Name, one.total)
		}
		lim := k - 1 + r.Intn(2)
		what += fmt.Sprint("limit ", lim)
		vTry("top", what, func() {
			got, order := ats.top(lim)
			want := k
			if len(order) != want || len(got) != want {
				vBad("kept", "%s: %d accounts are shown, should be %d", what, len(order), want)
				return
			}
			if k > lim && (order[lim] != nil || got[nil] == nil) {
				vBad("remainder", "%s: no remainder is shown", what)
				return
			}
			for i := 0; i+1 < len(order); i++ {
				x, y := order[i], order[i+1]
				if y == nil { // the remainder is the one account left out
					for a, v := range vals {
						if got[a] == nil && v.Cmp(vals[x]) > 0 {
							vBad("largest by value", "%s: %s is left out, though it is larger than %s", what, a.Name, x.Name)
						}
					}
				} else if vals[x].Cmp(vals[y]) < 0 {
					vBad("descending by value", "%s: %s comes before %s", what, x.Name, y.Name)
				}
			}
		})
		vCase(what, k > 1)
	}
}
