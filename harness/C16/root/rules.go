package coin

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

type vRuleDef struct {
	acct  string // "--": drop
	pat   string
	notes []string
	set   int // reference to a set when >= 0
}

type vRules struct {
	name  string // of a set
	id    string // of an account's rules
	acct  string
	items []vRuleDef
}

var vRuleAccts = []string{"Expenses:Food", "Expenses:Food:Out", "Expenses:A/B", "Income:Job-x", "Assets:Bank", "Assets:Cash_1"}

// vMatches: patterns are literals joined by |, optionally anchored.
func vMatches(pat, payee string) bool {
	for _, w := range strings.Split(pat, "|") {
		a, z := strings.HasPrefix(w, "^"), strings.HasSuffix(w, "$")
		w = strings.TrimSuffix(strings.TrimPrefix(w, "^"), "$")
		if a && z && payee == w || a && !z && strings.HasPrefix(payee, w) || z && !a && strings.HasSuffix(payee, w) || !a && !z && strings.Contains(payee, w) {
			return true
		}
	}
	return false
}

func vFirst(all []*vRules, rs *vRules, payee string) *vRuleDef {
	for i := range rs.items {
		it := &rs.items[i]
		if it.set >= 0 {
			if r := vFirst(all, all[it.set], payee); r != nil {
				return r
			}
		} else if vMatches(it.pat, payee) {
			return it
		}
	}
	return nil
}

func vWord(r *rand.Rand) string {
	return []string{"A", "AB", "ABC", "B", "SHOP", "shop", "SHOP 12", "CO", "COFFEE CO", "X", "AX"}[r.Intn(11)]
}

func vPat(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		return "^" + vWord(r)
	case 2:
		return vWord(r) + "$"
	case 3:
		return "^" + vWord(r) + "$"
	}
	p := vWord(r)
	for r.Intn(3) == 0 {
		p += "|" + vWord(r)
	}
	return p
}

func vShowRule(r *Rule) string {
	if r == nil {
		return "none"
	}
	a := "--"
	if r.Account != nil {
		a = r.Account.FullName
	}
	return fmt.Sprintf("%s %q %q", a, r.String(), r.Notes)
}

func vShowDef(d *vRuleDef) string {
	if d == nil {
		return "none"
	}
	return fmt.Sprintf("%s %q %q", d.acct, d.pat, d.notes)
}

func TestVerifRules(t *testing.T) {
	vRule("random rule files with up to 3 nested rule sets and 3 accounts, literal and anchored patterns: the rule chosen for random payees against the written order, also after writing the rules and reading them again")
	r := vRand()
	vReset()
	ld := "commodity CAD\n  format 1.00 CAD\n\n"
	for i, a := range vRuleAccts {
		ld += "account " + a + "\n"
		if i < 4 {
			ld += fmt.Sprintf("  ofx_acctid %d\n", 900+i)
		} else { // other attributes that look like one
			ld += fmt.Sprintf("  ofx_bankid %d\n  ofx_acctid %d\n  csv_acctid %d\n", 90+6*(i-4)*151, i-4, 898+i)
		}
		ld += "\n"
	}
	Load(strings.NewReader(ld), "")
	ResolveAccounts()
	for n := 0; n < vN(6000) && !vTime(6); n++ {
		var all []*vRules
		sets := r.Intn(4)
		snames := []string{"set0", "Zed", "a_1", "food"}
		r.Shuffle(4, func(i, j int) { snames[i], snames[j] = snames[j], snames[i] })
		for k := sets + 1 + r.Intn(3); k > 0; k-- {
			rs := &vRules{}
			i := len(all)
			if i < sets {
				rs.name = snames[i]
			} else {
				rs.id = []string{"900", "12", "a_1", "77777"}[(i+n)%4]
				rs.acct = vRuleAccts[r.Intn(len(vRuleAccts))]
			}
			for m := r.Intn(5); m > 0; m-- {
				d := vRuleDef{set: -1}
				nsets := i
				if nsets > sets {
					nsets = sets
				}
				if nsets > 0 && r.Intn(3) == 0 {
					d.set = r.Intn(nsets)
				} else {
					d.acct = vRuleAccts[r.Intn(len(vRuleAccts))]
					if r.Intn(6) == 0 {
						d.acct = "--"
					}
					d.pat = vPat(r)
					for r.Intn(3) == 0 {
						d.notes = append(d.notes, []string{"note", "a longer note", "#tag: x", "1"}[r.Intn(4)])
					}
				}
				rs.items = append(rs.items, d)
			}
			all = append(all, rs)
		}
		var b strings.Builder
		for _, rs := range all {
			if rs.name != "" {
				fmt.Fprintf(&b, "%s\n", rs.name)
			} else {
				fmt.Fprintf(&b, "%s%s%s\n", rs.id, strings.Repeat(" ", 1+r.Intn(3)), rs.acct)
			}
			for _, d := range rs.items {
				ind := []string{"  ", "\t", "    "}[r.Intn(3)]
				if d.set >= 0 {
					fmt.Fprintf(&b, "%s@%s\n", ind, all[d.set].name)
					continue
				}
				fmt.Fprintf(&b, "%s%s%s%s\n", ind, d.acct, strings.Repeat(" ", 1+r.Intn(4)), d.pat)
				for _, x := range d.notes {
					fmt.Fprintf(&b, "%s; %s\n", ind, x)
				}
			}
			if r.Intn(2) == 0 {
				b.WriteString("\n")
			}
		}
		text := b.String()
		vTry("rules", text, func() {
			ri, err := ReadRules(strings.NewReader(text))
			if err != nil {
				vBad("read", "%s: %v", text, err)
				return
			}
			var out bytes.Buffer
			if err := ri.Write(&out); err != nil {
				vBad("write", "%s: %v", text, err)
				return
			}
			ri2, err := ReadRules(bytes.NewReader(out.Bytes()))
			if err != nil {
				vBad("read again", "%s: %v", out.String(), err)
				return
			}
			var out2 bytes.Buffer
			ri2.Write(&out2)
			seen, twice := map[string]bool{}, false
			for _, rs := range all[sets:] {
				twice = twice || seen[rs.acct]
				seen[rs.acct] = true
			}
			if !twice && out.String() != out2.String() {
				vBad("write again", "%s\nwritten as\n%s\nand then as\n%s", text, out.String(), out2.String())
			}
			last := map[string]*vRules{}
			for _, rs := range all[sets:] {
				last[rs.id] = rs
			}
			for k := 0; k < 8; k++ {
				payee := vWord(r)
				for r.Intn(3) == 0 {
					payee += " " + vWord(r)
				}
				if r.Intn(9) == 0 {
					payee = ""
				}
				for i := 0; i < sets; i++ {
					want := vShowDef(vFirst(all, all[i], payee))
					if got := vShowRule(ri.SetsByName[all[i].name].RuleFor(payee)); got != want {
						vBad("set", "%s\nset %s payee %q: %s, should be %s", text, all[i].name, payee, got, want)
					}
				}
				for id, rs := range last {
					want := vShowDef(vFirst(all, rs, payee))
					for j, x := range []*RuleIndex{ri, ri2} {
						ars := x.AccountRulesFor(id)
						if ars.Account == nil || ars.Account.FullName != rs.acct {
							vBad("account", "%s\naccount for %s (round %d)", text, id, j)
						}
						if got := vShowRule(ars.RuleFor(payee)); got != want {
							vBad([]string{"chosen", "chosen after writing"}[j], "%s\nid %s payee %q: %s, should be %s; written as\n%s", text, id, payee, got, want, out.String())
						}
					}
				}
			}
			for i := 0; i < 4; i++ {
				id := fmt.Sprint(900 + i)
				if last[id] != nil {
					continue
				}
				ars := ri.AccountRulesFor(id)
				if ars.Account == nil || ars.Account.FullName != vRuleAccts[i] || ars.RuleFor("A") != nil {
					vBad("identifier", "%s\naccount with identifier %s: %v", text, id, ars)
				}
			}
		})
		vCase(text, sets > 0)
	}
}
