package coin

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
)

// vTok is a piece of a pattern: a word, one name boundary, or any text.
type vTok struct {
	kind int // 0 word, 1 exactly one ":" with name characters around it, 2 any characters of names and ":"
	text string
}

func vToks(pattern string) (out []vTok) {
	words := strings.Split(pattern, ":")
	for i := 0; i < len(words); i++ {
		switch {
		case words[i] != "":
			if i > 0 && (words[i-1] != "" || i == 1) {
				out = append(out, vTok{kind: 1})
			}
			out = append(out, vTok{0, strings.ToLower(words[i])})
		case i > 0 && (words[i-1] != "" || i == 1):
			out = append(out, vTok{kind: 2})
		}
	}
	return out
}

func vNameChar(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '/' || c == '-'
}

func vMatchAt(toks []vTok, s string) bool {
	if len(toks) == 0 {
		return true
	}
	switch t := toks[0]; t.kind {
	case 0:
		return strings.HasPrefix(s, t.text) && vMatchAt(toks[1:], s[len(t.text):])
	case 1:
		for i := 0; i <= len(s); i++ {
			if i == len(s) || !vNameChar(s[i]) {
				if i == len(s) || s[i] != ':' {
					return false
				}
				i++
				for {
					if vMatchAt(toks[1:], s[i:]) {
						return true
					}
					if i == len(s) || !vNameChar(s[i]) {
						return false
					}
					i++
				}
			}
		}
	default:
		for i := 0; ; i++ {
			if vMatchAt(toks[1:], s[i:]) {
				return true
			}
			if i == len(s) || !vNameChar(s[i]) && s[i] != ':' {
				return false
			}
		}
	}
	return false
}

func vMatches(pattern, name string) bool {
	toks, name := vToks(pattern), strings.ToLower(name)
	for i := 0; i <= len(name); i++ {
		if vMatchAt(toks, name[i:]) {
			return true
		}
	}
	return false
}

func vAccounts(r *rand.Rand) []string {
	words := []string{"A", "a", "Ab", "aB", "b", "B", "Food", "foo", "Bank", "b_c", "x-1", "AA", "Misc/x", "A-b", "Ab/c", "b1", "Food-x"}
	r.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
	words = words[:3+r.Intn(len(words)-3)]
	if r.Intn(3) == 0 { // words that continue one another with characters ordered before the separator
		words = []string{"A", "A-b", "A1", "a/b", "b"}
	}
	set := map[string]bool{}
	for i := 1 + r.Intn(12); i > 0; i-- {
		n := ""
		for d := 1 + r.Intn(4); d > 0; d-- {
			if n != "" {
				n += ":"
			}
			n += words[r.Intn(len(words))]
			if r.Intn(3) > 0 {
				set[n] = true
			}
		}
		set[n] = true
	}
	var names []string
	for n := range set {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

func vPattern(r *rand.Rand, names []string) string {
	n := names[r.Intn(len(names))]
	switch r.Intn(6) {
	case 0:
		return n
	case 1:
		return strings.ToLower(n)
	case 2: // part of a name
		i := r.Intn(len(n))
		return n[i : i+1+r.Intn(len(n)-i)]
	}
	var ws []string
	for _, w := range strings.Split(n, ":") {
		switch r.Intn(5) {
		case 0:
			ws = append(ws, "")
		case 1:
		case 2:
			ws = append(ws, w[:1+r.Intn(len(w))])
		default:
			ws = append(ws, w)
		}
	}
	p := strings.Join(ws, ":")
	switch r.Intn(8) {
	case 0:
		p = ":" + p
	case 1:
		p += ":"
	case 2:
		p += "::"
	case 3:
		p = strings.ToUpper(p)
	case 4:
		p = "::" + p
	}
	return p
}

func TestVerifLookup(t *testing.T) {
	vRule("random sets of 1 to 40 account names of depth 1 to 4 over similar words, and patterns derived from them by dropping, shortening and emptying words: listing and unique lookup against a hand-written matcher of the pattern language")
	r := vRand()
	for n := 0; n < vN(60000) && !vTime(5); n++ {
		names := vAccounts(r)
		AccountsByName = map[string]*Account{}
		for _, i := range r.Perm(len(names)) {
			a := accountFromName(names[i])
			AccountsByName[names[i]] = a
			switch r.Intn(8) { // attributes that the name says nothing about
			case 0:
				a.Closed = MustParseDate("2001/02/03")
			case 1:
				a.Description = names[r.Intn(len(names))]
			case 2:
				a.OFXAcctId, a.CSVAcctId = names[r.Intn(len(names))], names[r.Intn(len(names))]
			case 3:
				a.Postings = []*Posting{{Account: a}}
			}
		}
		for _, a := range AccountsByName {
			a.Parent = AccountsByName[a.ParentName()]
		}
		p := vPattern(r, names)
		var want []string
		for _, a := range names {
			if vMatches(p, a) {
				want = append(want, a)
			}
		}
		in := fmt.Sprintf("pattern %q, accounts %q", p, names)
		vTry("list", in, func() {
			var got []string
			for _, a := range FindAccounts(p) {
				if a != AccountsByName[a.FullName] {
					vBad("list", "%s: lists an account that is not registered", in)
				}
				got = append(got, a.FullName)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				vBad("list", "%s: lists %q, should be %q", in, got, want)
			}
		})
		exp := ""
		if AccountsByName[p] != nil {
			exp = p
		} else {
			for _, c := range want {
				ok := true
				for _, o := range want {
					ok = ok && (o == c || strings.HasPrefix(o, c+":"))
				}
				if ok {
					exp = c
				}
			}
		}
		vWatch("lookup", in)
		var got *Account
		e := vPanics(func() { got = MustFindAccount(p) })
		vCur.Store(nil)
		switch {
		case e != nil && exp != "":
			vBad("refused", "%s: refused (%v), should find %q", in, e, exp)
		case e == nil && exp == "":
			vBad("chosen", "%s: chooses %q although %d accounts match: %q", in, got.FullName, len(want), want)
		case e == nil && (got == nil || got != AccountsByName[exp]):
			vBad("found", "%s: finds %v, should find %q", in, got, exp)
		}
		vCase(in, len(want) > 1)
	}
	// an empty pattern selects all
	names := vAccounts(r)
	AccountsByName = map[string]*Account{}
	for _, n := range names {
		AccountsByName[n] = accountFromName(n)
	}
	if l := FindAccounts(""); len(l) != len(names) {
		vBad("empty", "the empty pattern selects %d of %d accounts", len(l), len(names))
	}
}
