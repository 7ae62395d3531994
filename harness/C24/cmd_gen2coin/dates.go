package main

import (
	"fmt"
	"math/rand"
	"testing"
	"time"
)

// vCivilDays is the number of the day counted from Sunday 1 January 2006, reckoned from the calendar's definition.
func vCivilDays(y, m, d int) int {
	n := 0
	for k := 2006; k < y; k++ {
		n += vYearLen(k)
	}
	for k := y; k < 2006; k++ {
		n -= vYearLen(k)
	}
	for k := 1; k < m; k++ {
		n += vMonthLen(y, k)
	}
	return n + d - 1
}
func vLeap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
func vYearLen(y int) int {
	if vLeap(y) {
		return 366
	}
	return 365
}
func vMonthLen(y, m int) int {
	if m == 2 && vLeap(y) {
		return 29
	}
	return []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
}
func vFloor(a, b int) int {
	if a < 0 {
		return -((-a + b - 1) / b)
	}
	return a / b
}

// vDays lists year, month, day for day numbers lo..hi.
func vDays(y, m, d, n int) (out [][3]int) {
	for i := 0; i < n; i++ {
		out = append(out, [3]int{y, m, d})
		if d++; d > vMonthLen(y, m) {
			d = 1
			if m++; m > 12 {
				m, y = 1, y+1
			}
		}
	}
	return
}

func TestVerifDates(t *testing.T) {
	vRule("random ranges of -20 to 3000 days from any day of 1990 to 2060, intervals -1 to 40, counts 0 to 9 and every kind of set of days: dates in range, ascending, on requested days of every interval-th week or month, no more than the count in each, none missing when the count covers all days")
	r := vRand()
	for n := 0; n < vN(6000) && !vTime(6); n++ {
		rnd = rand.New(rand.NewSource(r.Int63()))
		y, m := 1990+r.Intn(70), 1+r.Intn(12)
		d := 1 + r.Intn(vMonthLen(y, m))
		span := r.Intn(90) - 20
		if r.Intn(3) == 0 {
			span = r.Intn(900)
			if r.Intn(6) == 0 {
				span = r.Intn(3000)
			}
		}
		hour := []int{12, 0, 23}[r.Intn(3)]
		begin := time.Date(y, time.Month(m), d, hour, 0, 0, 0, time.UTC)
		end := begin.Add(time.Duration(span) * 24 * time.Hour)
		interval := r.Intn(7) - 1
		if r.Intn(8) == 0 {
			interval = r.Intn(40)
		}
		step := interval
		if step < 1 {
			step = 1
		}
		var all [][3]int
		if span >= 0 {
			all = vDays(y, m, d, span+1)
		}
		day0 := vCivilDays(y, m, d)
		monthly_ := r.Intn(2) == 0
		var ds []int
		var gen dateGen
		count := r.Intn(10)
		if monthly_ {
			for k := r.Intn(5); k > 0; k-- {
				ds = append(ds, []int{1 + r.Intn(31), -1 - r.Intn(31), 28 + r.Intn(5), r.Intn(80) - 40, r.Intn(900) - 450}[r.Intn(5)])
			}
			gen = monthly(count, interval, ds...)
		} else {
			var ws []time.Weekday
			for w := 0; w < 7; w++ {
				if r.Intn(3) == 0 {
					ds = append(ds, w)
					ws = append(ws, time.Weekday(w))
				}
			}
			gen = weekly(count, interval, ws...)
		}
		in := fmt.Sprintf("monthly=%v from %04d/%02d/%02d for %d days, count %d, interval %d, days %v", monthly_, y, m, d, span, count, interval, ds)
		// unit and requested are functions of the day
		unit := func(c [3]int) int {
			if monthly_ {
				return 12*(c[0]-y) + c[1] - m
			}
			return vFloor(vCivilDays(c[0], c[1], c[2]), 7) - vFloor(day0, 7)
		}
		hits := func(c [3]int) int {
			k := 0
			for _, p := range ds {
				if !monthly_ {
					if ((vCivilDays(c[0], c[1], c[2])%7)+7)%7 == p {
						k++
					}
				} else if p > 0 && c[2] == p || p < 0 && c[2] == vMonthLen(c[0], c[1])+1+p {
					k++
				}
			}
			if len(ds) == 0 {
				k = 1
			}
			return k
		}
		vTry("dates", in, func() {
			begin2, end2 := begin, end
			for round := 0; round < 2; round++ { // a generator is used for several ranges
				got := gen(begin2, end2)
				per := map[int]int{}
				seen := map[[3]int]int{}
				for i, g := range got {
					yy, mm, dd := g.Date()
					c := [3]int{yy, int(mm), dd}
					if g.Before(begin) || end.Before(g) || g.Hour() != hour {
						vBad("range", "%s: %s", in, g)
					}
					if i > 0 && (g.Before(got[i-1]) || !monthly_ && !got[i-1].Before(g)) {
						vBad("order", "%s: %s after %s", in, g, got[i-1])
					}
					if hits(c) == 0 {
						vBad("day", "%s: %s is not on a requested day", in, g)
					}
					u := unit(c)
					if u < 0 || u%step != 0 {
						vBad("interval", "%s: %s is %d weeks or months from the beginning", in, g, u)
					}
					per[u]++
					seen[c]++
					if per[u] > count {
						vBad("count", "%s: more than %d in the week or month of %s", in, count, g)
					}
				}
				want := len(ds)
				if want == 0 {
					if want = 7; monthly_ {
						want = 31
					}
				}
				if count >= want {
					for i, c := range all {
						if u := unit(c); u%step == 0 && i < span && seen[c] != hits(c) {
							vBad("missing", "%s: %v occurs %d times, not %d", in, c, seen[c], hits(c))
						}
					}
				}
			}
		})
		vCase(in, span > 0 && count > 0)
	}
}
