package coin

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
)

type vDecl struct {
	name, note, com, closed, ofx string
}

func (d *vDecl) text() string {
	s := "account " + d.name + "\n"
	if d.note != "" {
		s += "  note " + d.note + "\n"
	}
	if d.com != "" {
		s += "  commodity " + d.com + "\n"
	}
	if d.closed != "" {
		s += "  closed " + d.closed + "\n"
	}
	if d.ofx != "" {
		s += "  ofx_acctid " + d.ofx + "\n"
	}
	return s + "\n"
}

var vParts = []string{"A", "B", "AB", "a", "A_b", "A-b", "B2", "Root", "Unbalanced", "Z/y", "LongerName"}

func vPath(r *rand.Rand) string {
	s := ""
	for k := 1 + r.Intn(5); k > 0; k-- {
		s += ":" + vParts[r.Intn(len(vParts))]
		if r.Intn(3) == 0 {
			s = s[:1] + "A" + s[1:] // names that are prefixes of others without being above them
		}
	}
	return s[1:]
}

func TestVerifTree(t *testing.T) {
	vRule("1 to 14 accounts with random names of up to 5 parts out of few (shared prefixes, Root and Unbalanced among them), declared in random order with random attributes or twice, and transactions posting to them by full name, loaded from text: the accounts, their parents, children, attributes and postings against those worked out from the names")
	r := vRand()
	for n := 0; n < vN(4000) && !vTime(8); n++ {
		decls := map[string]*vDecl{}
		var text strings.Builder
		text.WriteString("commodity CAD\n  format 1.00 CAD\n\ncommodity USD\n  format 1.00 USD\n\n")
		var names []string
		for i := 1 + r.Intn(14); i > 0; i-- {
			d := &vDecl{name: vPath(r)}
			if len(names) > 0 && r.Intn(4) == 0 {
				d.name = names[r.Intn(len(names))] + ":" + vParts[r.Intn(len(vParts))]
			}
			if r.Intn(2) == 0 {
				d.note = fmt.Sprint("note ", i)
			}
			d.com = []string{"", "CAD", "USD"}[r.Intn(3)]
			if r.Intn(4) == 0 {
				d.closed = vDate(r.Intn(300))
			}
			if r.Intn(4) == 0 {
				d.ofx = fmt.Sprint(1000 + i)
			}
			if decls[d.name] == nil {
				names = append(names, d.name)
			}
			decls[d.name] = d
			text.WriteString(d.text())
		}
		type ref struct{ acct, com string }
		var refs []ref
		for i := r.Intn(6); i > 0; i-- {
			a := names[r.Intn(len(names))]
			c := decls[a].com
			if c == "" {
				c = "CAD"
			}
			fmt.Fprintf(&text, "%s p\n  %s  0.00 %s\n\n", vDate(r.Intn(300)), a, c)
			refs = append(refs, ref{a, c})
		}
		in := text.String()
		// the accounts there have to be: those declared, all above them, and the two the program needs
		want := map[string]bool{"Root": true, "Unbalanced": true}
		for _, d := range names {
			ps := strings.Split(d, ":")
			for i := range ps {
				want[strings.Join(ps[:i+1], ":")] = true
			}
		}
		vTry("tree", in, func() {
			vLoad(in)
			if len(AccountsByName) != len(want) {
				vBad("accounts", "ledger:\n%s%d accounts, should be %d", in, len(AccountsByName), len(want))
				return
			}
			kids := map[string][]string{}
			for w := range want {
				a := AccountsByName[w]
				if a == nil {
					vBad("missing", "ledger:\n%sno account %s", in, w)
					return
				}
				own, up := w, "Root"
				if i := strings.LastIndexByte(w, ':'); i >= 0 {
					own, up = w[i+1:], w[:i]
				}
				if a.FullName != w || a.Name != own {
					vBad("name", "ledger:\n%saccount %s is called %s (%s)", in, w, a.FullName, a.Name)
					return
				}
				if w == "Root" {
					if a != Root || a.Parent != nil {
						vBad("root", "ledger:\n%sthe root is %v, its parent %v", in, Root, a.Parent)
						return
					}
				} else {
					if a.Parent == nil || a.Parent != AccountsByName[up] {
						vBad("parent", "ledger:\n%sthe parent of %s is %v", in, w, a.Parent)
						return
					}
					kids[up] = append(kids[up], w)
				}
				d := decls[w]
				if d == nil {
					d = &vDecl{}
				}
				closed := ""
				if !a.Closed.IsZero() {
					closed = a.Closed.Format(DateFormat)
				}
				com := d.com
				if com == "" {
					com = "CAD"
				}
				if a.Description != d.note || a.Commodity == nil || a.Commodity.Id != com || closed != d.closed || a.OFXAcctId != d.ofx {
					vBad("attributes", "ledger:\n%saccount %s has note %q, commodity %v, closed %q, ofx %q", in, w, a.Description, a.Commodity, closed, a.OFXAcctId)
					return
				}
			}
			if Unbalanced != AccountsByName["Unbalanced"] {
				vBad("unbalanced", "ledger:\n%sUnbalanced is not the account of that name", in)
				return
			}
			for w := range want {
				a := AccountsByName[w]
				var got []string
				for i, c := range a.Children {
					got = append(got, c.FullName)
					if i > 0 && a.Children[i-1].Name > c.Name {
						vBad("order", "ledger:\n%sthe children of %s are not in name order: %v", in, w, got)
						return
					}
					if AccountsByName[c.FullName] != c {
						vBad("stranger", "ledger:\n%sa child of %s is not the account %s", in, w, c.FullName)
						return
					}
				}
				sort.Strings(got)
				sort.Strings(kids[w])
				if fmt.Sprint(got) != fmt.Sprint(kids[w]) {
					vBad("children", "ledger:\n%sthe children of %s are %v, should be %v", in, w, got, kids[w])
					return
				}
			}
			posted := map[string]int{}
			for _, f := range refs {
				posted[f.acct]++
			}
			for _, tr := range Transactions {
				for _, p := range tr.Postings {
					if p.Account == nil || p.Account.FullName != p.accountName {
						vBad("posting", "ledger:\n%sa posting to %s is in %v", in, p.accountName, p.Account)
						return
					}
				}
			}
			for w := range want {
				if len(AccountsByName[w].Postings) != posted[w] {
					vBad("postings", "ledger:\n%s%d postings in %s, should be %d", in, len(AccountsByName[w].Postings), w, posted[w])
					return
				}
			}
		})
		vCase(in, len(names) > 2)
	}
}
