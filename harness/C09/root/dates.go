package coin

import (
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"
)

// vDayNo counts days from 1 March of year 0; months and days may lie outside their usual range.
func vDayNo(y, m, d int) int {
	k := 12*y + m - 3 // months from March of year 0
	c := vFloorDiv(k, 12)
	return 365*c + vFloorDiv(c, 4) - vFloorDiv(c, 100) + vFloorDiv(c, 400) + []int{0, 31, 61, 92, 122, 153, 184, 214, 245, 275, 306, 337}[k-12*c] + d - 1
}
func vFloorDiv(a, b int) int {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// vCivil finds the year, month and day of a day number by looking for the month that contains it.
func vCivil(n int) (y, m, d int) {
	k := vFloorDiv(n*400, 146097)*12 - 24
	for vDayNo(0, k+1, 1) <= n {
		k++
	}
	y = vFloorDiv(k-1, 12)
	m = k - 12*y
	return y, m, n - vDayNo(y, m, 1) + 1
}

// vReadDate reads [[yy[yy]/]m/d | yyyy[/m]][offset] by hand; ok is false when s is anything else.
type vDateText struct {
	y, m, d    int
	ny, nm, nd int // digits written
	off        int
	unit       byte
}

func vReadDate(s string) (t vDateText, ok bool) {
	if i := strings.IndexAny(s, "+-"); i >= 0 {
		o := s[i:]
		s = s[:i]
		if len(o) < 3 || len(o) > 8 || !strings.Contains("dwmy", o[len(o)-1:]) {
			return t, false
		}
		t.unit = o[len(o)-1]
		for _, c := range o[1 : len(o)-1] {
			if c < '0' || c > '9' {
				return t, false
			}
			t.off = 10*t.off + int(c-'0')
		}
		if o[0] == '-' {
			t.off = -t.off
		}
		if s == "" {
			return t, true
		}
	}
	var ns, ls []int
	for _, p := range strings.Split(s, "/") {
		n := 0
		for _, c := range p {
			if c < '0' || c > '9' {
				return t, false
			}
			n = 10*n + int(c-'0')
		}
		ns, ls = append(ns, n), append(ls, len(p))
	}
	short := func(i int) bool { return ls[i] == 1 || ls[i] == 2 }
	switch {
	case len(ns) == 1 && ls[0] == 4:
		t.y, t.ny = ns[0], 4
	case len(ns) == 2 && ls[0] == 4 && short(1):
		t.y, t.ny, t.m, t.nm = ns[0], 4, ns[1], ls[1]
	case len(ns) == 2 && short(0) && short(1):
		t.m, t.nm, t.d, t.nd = ns[0], ls[0], ns[1], ls[1]
	case len(ns) == 3 && (ls[0] == 2 || ls[0] == 4) && short(1) && short(2):
		t.y, t.ny, t.m, t.nm, t.d, t.nd = ns[0], ls[0], ns[1], ls[1], ns[2], ls[2]
	default:
		return t, false
	}
	return t, true
}

// vDenoted lists the days t may denote when today is y/m/d: two when two years or months are equally far.
func vDenoted(t vDateText, y, m, d int) (days []int) {
	var base []int
	switch {
	case t.ny == 0 && t.nm == 0:
		base = []int{vDayNo(y, m, d)}
	case t.nd == 0 && t.nm == 0:
		base = []int{vDayNo(t.y, 1, 1)}
	case t.nd == 0:
		base = []int{vDayNo(t.y, t.m, 1)}
	case t.ny == 4 && t.y >= 100:
		base = []int{vDayNo(t.y, t.m, t.d)}
	case t.ny > 0: // two digits
		for c := y - 50; c <= y+50; c++ {
			if vFloorDiv(c, 100)*100+t.y == c {
				base = append(base, vDayNo(c, t.m, t.d))
			}
		}
	default:
		for c := y - 1; c <= y+1; c++ {
			if away := 12*(c-y) + t.m - m; away >= -6 && away <= 6 {
				base = append(base, vDayNo(c, t.m, t.d))
			}
		}
	}
	for _, n := range base {
		switch t.unit {
		case 'd':
			n += t.off
		case 'w':
			n += 7 * t.off
		case 'm', 'y':
			o := t.off
			if t.unit == 'y' {
				o *= 12
			}
			yy, mm, dd := vCivil(n)
			n = vDayNo(yy, mm+o, dd)
		}
		days = append(days, n)
	}
	return days
}

func TestVerifDates(t *testing.T) {
	vRule("current dates of 1700 to 2300 (every month, ends of months, year ends) by every spelling of a date with random numbers and offsets up to 6 digits, and random near misses: the day of an independent calendar at noon UTC, or refused")
	r := vRand()
	if y, m, d := time.Now().Date(); Year != y || Month != m || Day != d {
		if y, m, d = time.Now().Add(-time.Minute).Date(); Year != y || Month != m || Day != d {
			vBad("today", "the current date is taken to be %d/%d/%d", Year, Month, Day)
		}
	}
	num := func(n, w int) string {
		if w == 2 {
			return fmt.Sprintf("%02d", n)
		}
		return strconv.Itoa(n)
	}
	check := func(s string, got time.Time, y, m, d int) {
		tx, ok := vReadDate(s)
		if !ok {
			return
		}
		days := vDenoted(tx, y, m, d)
		if len(days) == 0 { // not a month of the year, without a year
			return
		}
		yy, mm, dd := got.UTC().Date()
		n := vDayNo(yy, int(mm), dd)
		if n != days[0] && n != days[len(days)-1] || got.UTC().Format("15:04:05.999999999") != "12:00:00" {
			wy, wm, wd := vCivil(days[0])
			vBad("wrong", "%q on %d/%d/%d is %s, not %d/%02d/%02d", s, y, m, d, got, wy, wm, wd)
		}
	}
	for n := 0; n < vN(60000) && !vTime(5); n++ {
		y, m := 1950+r.Intn(130), 1+r.Intn(12)
		if r.Intn(5) == 0 {
			y = 1700 + r.Intn(600)
		}
		d := 1 + r.Intn(28)
		if r.Intn(2) == 0 {
			d = vDayNo(y, m+1, 1) - vDayNo(y, m, 1) - r.Intn(2)
		}
		Year, Month, Day = y, time.Month(m), d
		s := ""
		mo, da := 1+r.Intn(12), 1+r.Intn(31)
		if r.Intn(12) == 0 {
			mo, da = r.Intn(100), r.Intn(100)
		}
		w := 1 + r.Intn(2)
		switch r.Intn(6) {
		case 0:
			s = fmt.Sprintf("%04d/%s/%s", r.Intn(10000), num(mo, w), num(da, w))
		case 1:
			s = fmt.Sprintf("%02d/%s/%s", r.Intn(100), num(mo, w), num(da, w))
		case 2:
			s = num(mo, w) + "/" + num(da, w)
		case 3:
			s = fmt.Sprintf("%04d/%s", y-100+r.Intn(200), num(mo, w))
		case 4:
			s = fmt.Sprintf("%04d", y-100+r.Intn(200))
		}
		if s == "" || r.Intn(3) == 0 {
			s += fmt.Sprintf("%c%d%c", "+-"[r.Intn(2)], []int{r.Intn(10), r.Intn(60), r.Intn(1000), r.Intn(1000000)}[r.Intn(4)], "dwmy"[r.Intn(4)])
		}
		if r.Intn(4) == 0 { // a near miss
			for k := 1 + r.Intn(2); k > 0; k-- {
				i := r.Intn(len(s) + 1)
				c := string("0123456789/+-dwmy|x. \n:"[r.Intn(23)])
				switch r.Intn(4) {
				case 0:
					s = s[:i] + c + s[i:]
				case 1:
					if i < len(s) {
						s = s[:i] + s[i+1:]
					}
				case 2:
					if i < len(s) {
						s = s[:i] + c + s[i+1:]
					}
				default:
					s += c
				}
			}
		}
		_, ok := vReadDate(s)
		if s == "" {
			ok = false
		}
		in := fmt.Sprintf("%q on %d/%d/%d", s, y, m, d)
		vTry("date", in, func() {
			var dt Date
			err := dt.Set(s)
			if ok != (err == nil) {
				vBad("refused", "%s: error %v (%s)", in, err, dt.String())
			}
			if ok && err == nil {
				check(s, dt.Time, y, m, d)
				check(s, MustParseDate(s), y, m, d)
			}
			if n%20 == 0 && ok {
				WithDate(s, func() {
					if yy, mm, dd := MustParseDate(s + "").Date(); yy == 0 && mm == 0 && dd == 0 {
						vBad("with", "%s", in)
					}
					yy, mm, dd := dt.Time.Date()
					if Year != yy || Month != mm || Day != dd {
						vBad("with", "%s: current date %d/%d/%d instead of %s", in, Year, Month, Day, dt.String())
					}
				})
				if Year != y || Month != time.Month(m) || Day != d {
					vBad("with", "%s: the current date is %d/%d/%d afterwards", in, Year, Month, Day)
				}
			}
			if n%10 == 0 && ok && s[0] >= 48 && s[0] <= 57 { // the same spelling in a ledger
				vReset()
				Year, Month, Day = y, time.Month(m), d
				Load(strings.NewReader("commodity CAD\n  format 1.00 CAD\n\ncommodity USD\n  format 1.00 USD\n\nP "+s+" CAD 2.00 USD\n\n"+s+" payee\n  A 1.00 CAD\n  B -1.00 CAD\n"), "")
				if len(Transactions) == 1 {
					check(s, Transactions[0].Posted, y, m, d)
				} else {
					vBad("ledger", "%s: %d transactions", in, len(Transactions))
				}
				if len(Prices) == 1 {
					check(s, Prices[0].Time, y, m, d)
				} else {
					vBad("ledger", "%s: %d prices", in, len(Prices))
				}
			}
		})
		vCase(in, ok)
	}
}
