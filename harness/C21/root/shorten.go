package coin

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifShorten(t *testing.T) {
	vRule("random account names of 1 to 6 parts of 0 to 9 characters and every width from -3 to length+3: prefixes of the same parts, fitting unless every part is down to one character")
	r := vRand()
	for n := 0; n < vN(20000) && !vTime(5); n++ {
		var ps []string
		for k := 1 + r.Intn(6); k > 0; k-- {
			l := r.Intn(10)
			if l == 0 && r.Intn(4) > 0 {
				l = 1
			}
			if r.Intn(30) == 0 {
				l = 40
			}
			p := ""
			for ; l > 0; l-- {
				p += string("ABab_-/x"[r.Intn(8)])
			}
			ps = append(ps, p)
		}
		name := strings.Join(ps, ":")
		for w := -3; w <= len(name)+3; w++ {
			in := fmt.Sprintf("%q to %d", name, w)
			vTry("shorten", in, func() {
				got := ShortenAccountName(name, w)
				if len(name) <= w {
					if got != name {
						vBad("changed", "%s: %q, fits already", in, got)
					}
					return
				}
				gs := strings.Split(got, ":")
				if len(gs) != len(ps) {
					vBad("parts", "%s: %q", in, got)
					return
				}
				least := true
				for i, g := range gs {
					if !strings.HasPrefix(ps[i], g) || ps[i] != "" && g == "" {
						vBad("prefix", "%s: %q, part %d is no prefix", in, got, i)
					}
					least = least && len(g) <= 1
				}
				if len(got) > w && !least {
					vBad("width", "%s: %q is %d wide", in, got, len(got))
				}
			})
		}
		vCase(name, len(ps) > 1)
	}
}
