package coin

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"strings"
	"testing"
)

func vPow(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

func vDigits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		switch r.Intn(3) {
		case 0:
			b[i] = '0'
		case 1:
			b[i] = '9'
		default:
			b[i] = byte('0' + r.Intn(10))
		}
	}
	return string(b)
}

func vLiteral(r *rand.Rand) string {
	sign := []string{"", "", "-", "-", "+"}[r.Intn(5)]
	switch r.Intn(12) {
	case 4, 5: // about as many digits as fit
		n := 15 + r.Intn(5)
		k := 1 + r.Intn(n)
		if r.Intn(2) == 0 {
			k = n - r.Intn(6)
		}
		return sign + vDigits(r, k) + "." + vDigits(r, n-k)
	case 0:
		return sign + vDigits(r, 1+r.Intn(20))
	case 1: // garbage
		const cs = "0123456789..-+ eE_,xé"
		b := ""
		for n := r.Intn(8); n > 0; n-- {
			b += string([]rune(cs)[r.Intn(len([]rune(cs)))])
		}
		return b
	case 2:
		return sign + "0." + strings.Repeat("0", r.Intn(70)) + vDigits(r, r.Intn(3))
	case 3:
		return sign + vDigits(r, r.Intn(2)) + "." + vDigits(r, r.Intn(2))
	}
	return sign + vDigits(r, 1+r.Intn(6)) + "." + vDigits(r, 1+r.Intn(8))
}

var vNumber = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)$`)

// vText is the decimal text of v/10^d written independently of the code.
func vText(v *big.Int, d int) string {
	s := new(big.Int).Abs(v).String()
	if len(s) <= d {
		s = strings.Repeat("0", d+1-len(s)) + s
	}
	if d > 0 {
		s = s[:len(s)-d] + "." + s[len(s)-d:]
	}
	if v.Sign() < 0 {
		s = "-" + s
	}
	return s
}

func TestVerifAmountText(t *testing.T) {
	vRule("random literals (signs, leading zeros, excess and missing decimals, over 50 decimals, non-numbers) and random amounts of 0 to 12 decimals below 10^45, against exact rational arithmetic and an independent renderer")
	r := vRand()
	for n := 0; n < vN(40000) && !vTime(8); n++ {
		c := &Commodity{Id: "AAA", Decimals: r.Intn(13)}
		lit := vLiteral(r)
		in := fmt.Sprintf("%q at %d decimals", lit, c.Decimals)
		vCase(in, true)
		vTry("parse", in, func() {
			a, err := parseAmount(lit, c)
			if !vNumber.MatchString(lit) {
				if err == nil {
					vBad("accepts", "%s: not a number, read as %s", in, a.Int)
				}
				return
			}
			intPart, frac, _ := strings.Cut(lit, ".")
			all, ok := new(big.Int).SetString(intPart+frac, 10)
			if !ok {
				vBad("oracle", "%s", in)
				return
			}
			if !all.IsInt64() {
				if err == nil {
					vBad("overflow", "%s: does not fit, read as %s", in, a.Int)
				}
				return
			}
			if err != nil {
				vBad("rejects", "%s: %v", in, err)
				return
			}
			want := new(big.Int).Mul(all, vPow(c.Decimals))
			want.Quo(want, vPow(len(frac)))
			if a.Int.Cmp(want) != 0 || a.Commodity != c {
				vBad("value", "%s: read as %s units, want %s", in, a.Int, want)
			}
		})
		// printing
		v := new(big.Int).Rand(r, vPow(r.Intn(46)))
		if r.Intn(4) == 0 {
			v = vPow(r.Intn(45))
			v.Add(v, big.NewInt(int64(r.Intn(3)-1)))
		}
		if r.Intn(2) == 0 {
			v.Neg(v)
		}
		a := NewAmount(v, c)
		keep := new(big.Int).Set(v)
		want := vText(v, c.Decimals)
		in = fmt.Sprintf("%s/10^%d", v, c.Decimals)
		vCase(in, true)
		vTry("print", in, func() {
			if got := a.String(); got != want {
				vBad("String", "%s: prints as %q, want %q", in, got, want)
			}
			w := r.Intn(30)
			forms := map[string]string{
				fmt.Sprintf("%v", a):                     want,
				fmt.Sprintf("%f", a):                     want,
				fmt.Sprintf("%.*f", c.Decimals, a):       want,
				fmt.Sprintf("%*.*f", w, c.Decimals, a):   fmt.Sprintf("%*s", w, want),
				fmt.Sprintf("%-*.*f|", w, c.Decimals, a): fmt.Sprintf("%-*s|", w, want),
			}
			for got, exp := range forms {
				if got != exp {
					vBad("Format", "%s: formats as %q, want %q (width %d)", in, got, exp, w)
				}
			}
			var b bytes.Buffer
			if err := a.Write(&b, false); err != nil || b.String() != want+" AAA" {
				vBad("Write", "%s: written as %q, want %q", in, b.String(), want+" AAA")
			}
			if got := a.Width(c.Decimals); got != len(want) {
				vBad("Width", "%s: width %d of %q", in, got, want)
			}
			num, den := new(big.Int).Set(v), new(big.Int).Add(big.NewInt(1), new(big.Int).Rand(r, vPow(r.Intn(9))))
			q := new(big.Int).Mul(num, vPow(c.Decimals))
			q.Quo(q, den)
			if got := NewAmountFrac(num, den, c); got.Int.Cmp(q) != 0 || num.Cmp(v) != 0 {
				vBad("fraction", "%s/%s at %d decimals: %s, want %s", num, den, c.Decimals, got.Int, q)
			}
			if keep.Cmp(v) != 0 || keep.Cmp(a.Int) != 0 {
				vBad("mutates", "%s: changed to %s by printing", in, a.Int)
			}
			if b, err := parseAmount(want, c); err == nil && b.Int.Cmp(v) != 0 {
				vBad("roundtrip", "%s: prints as %s which reads as %s", in, want, b.Int)
			} else if err != nil && v.IsInt64() {
				vBad("roundtrip", "%s: prints as %s which is rejected: %v", in, want, err)
			}
		})
	}
}
