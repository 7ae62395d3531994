package coin

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
)

func vKeyChar(c byte) bool {
	return c == '_' || c == '-' || c == '/' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// vTags reads the tags of a note: # and a key; after a colon a value up to the next comma or the end, without the blanks around it.
func vTags(line string, tags map[string]string) {
	for i := 0; i < len(line); i++ {
		if line[i] != '#' {
			continue
		}
		j := i + 1
		for j < len(line) && vKeyChar(line[j]) {
			j++
		}
		if j == i+1 {
			continue
		}
		key := line[i+1 : j]
		tags[key] = ""
		i = j - 1
		if j < len(line) && line[j] == ':' {
			end := strings.IndexByte(line[j:], ',')
			if end < 0 {
				end = len(line)
			} else {
				end += j
			}
			if v := strings.Trim(line[j+1:end], " \t\n\f\r"); v != "" {
				tags[key] = v
				i = end
			}
		}
	}
}

func vShow(t map[string]string) string {
	var ks []string
	for k := range t {
		ks = append(ks, fmt.Sprintf("%q=%q", k, t[k]))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func vNote(r *rand.Rand) string {
	frag := []string{"#", "a", "b", "tag", "key-1", "x/y", ":", ": ", " ", "  ", ",", ", ", "v", "some value", "\t", "#a", "#b", "#b:v", "#a: w,", "#c:1", ".", "!", "é", "#tag", "_", "#longer_key: a longer value, ", "##"}
	var s strings.Builder
	for n := r.Intn(9); n >= 0; n-- {
		s.WriteString(frag[r.Intn(len(frag))])
	}
	return s.String()
}

func vSet(r *rand.Rand) Tags {
	if r.Intn(5) == 0 {
		return nil
	}
	t := Tags{}
	for n := r.Intn(5); n > 0; n-- {
		t[[]string{"a", "b", "ab", "Key", "x/y", "z-1"}[r.Intn(6)]] = []string{"", "v", "V w", "1", "long value"}[r.Intn(5)]
	}
	return t
}

func vClone(t Tags) Tags {
	if t == nil {
		return nil
	}
	c := Tags{}
	for k, v := range t {
		c[k] = v
	}
	return c
}

func TestVerifTags(t *testing.T) {
	vRule("random notes of up to 4 lines assembled from tag fragments against an independent reader; random tag sets combined and listed; tag expressions of literal words against a direct search")
	r := vRand()
	for n := 0; n < vN(60000) && !vTime(6); n++ {
		var lines []string
		for i := 1 + r.Intn(4); i > 0; i-- {
			lines = append(lines, vNote(r))
		}
		in := fmt.Sprintf("%q", lines)
		want := map[string]string{}
		for _, l := range lines {
			vTags(l, want)
		}
		vTry("parse", in, func() {
			got := ParseTags(lines...)
			if vShow(got) != vShow(want) {
				vBad("parse", "notes %s: tags %s, should be %s", in, vShow(got), vShow(want))
			}
			if len(want) == 0 && got != nil {
				vBad("parse", "notes %s: tags not nil", in)
			}
		})
		vCase(in, len(want) > 0)
	}
	for n := 0; n < vN(40000) && !vTime(9); n++ {
		a, b := vSet(r), vSet(r)
		ca, cb := vClone(a), vClone(b)
		in := vShow(a) + " with " + vShow(b)
		vTry("combine", in, func() {
			c := a.With(b)
			want := map[string]string{}
			for k, v := range ca {
				want[k] = v
			}
			for k, v := range cb {
				want[k] = v
			}
			if vShow(c) != vShow(want) {
				vBad("combine", "%s: %s", in, vShow(c))
			}
			c["new"] = "x"
			if vShow(a) != vShow(ca) || vShow(b) != vShow(cb) {
				vBad("operands", "%s: the operands changed to %s and %s", in, vShow(a), vShow(b))
			}
			var ks, kvs []string
			for k, v := range ca {
				ks = append(ks, k)
				if v != "" {
					k += ":" + v
				}
				kvs = append(kvs, k)
				if !a.Includes(strings.SplitN(k, ":", 2)[0]) || a.Value(strings.SplitN(k, ":", 2)[0]) != v {
					vBad("lookup", "%s: %s is not found", vShow(a), k)
				}
			}
			sort.Strings(ks)
			sort.Strings(kvs)
			if got := a.Keys(); strings.Join(got, "|") != strings.Join(ks, "|") {
				vBad("keys", "keys of %s: %q", vShow(a), got)
			}
			if got := a.KeysAndValues(); strings.Join(got, "|") != strings.Join(kvs, "|") {
				vBad("keys", "keys and values of %s: %q", vShow(a), got)
			}
			if a.Includes("nokey") || a.Value("nokey") != "" {
				vBad("lookup", "%s has nokey", vShow(a))
			}
		})
		word := []string{"a", "B", "key", "x/", "1", "", "Z-"}[r.Intn(7)]
		exp, val, hasVal := word, "", r.Intn(2) == 0
		if hasVal {
			val = []string{"", "v", "W", "LONG", "q", ":", "b:v", "z:"}[r.Intn(8)]
			exp += ":" + val
		}
		inv := r.Intn(3) == 0
		if inv {
			exp = "!" + exp
		}
		if exp == "" {
			if NewTagMatcher(exp) != nil {
				vBad("empty", "an empty tag expression gives a matcher")
			}
			continue
		}
		want := false
		for k, v := range ca {
			m := strings.Contains(strings.ToLower(k), strings.ToLower(word)) && (!hasVal || strings.Contains(strings.ToLower(v), strings.ToLower(val)))
			want = want || m != inv
		}
		in = fmt.Sprintf("%q on %s", exp, vShow(a))
		vTry("match", in, func() {
			if got := NewTagMatcher(exp).Match(a); got != want {
				vBad("match", "%s: %v", in, got)
			}
		})
		vCase(in, len(a) > 0)
	}
}
