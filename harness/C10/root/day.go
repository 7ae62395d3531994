package coin

import (
	"fmt"
	"testing"
	"time"
)

func TestVerifDay(t *testing.T) {
	vRule("random date-ordered transaction lists of 0 to 12 entries over 8 days: every day's transactions against a linear scan")
	r := vRand()
	d0 := time.Date(2023, 12, 28, 12, 0, 0, 0, time.UTC)
	for n := 0; n < vN(20000) && !vTime(5); n++ {
		var ts TransactionsByTime
		in := ""
		for k, d := r.Intn(13), r.Intn(3); k > 0; k-- {
			ts = append(ts, &Transaction{Posted: d0.AddDate(0, 0, d)})
			in += fmt.Sprint(d, " ")
			d += r.Intn(3) * r.Intn(2)
		}
		for d := -1; d < 14; d++ {
			day := d0.AddDate(0, 0, d)
			in := fmt.Sprintf("days [%s] looking for day %d", in, d)
			vTry("day", in, func() {
				var want []*Transaction
				for _, t := range ts {
					if t.Posted.Equal(day) {
						want = append(want, t)
					}
				}
				got := ts.Day(day)
				ok := len(got) == len(want)
				for i := range want {
					ok = ok && got[i] == want[i]
				}
				if !ok {
					vBad("day", "%s: %d transactions, should be %d", in, len(got), len(want))
				}
			})
		}
		vCase(in, len(ts) > 1)
	}
}
