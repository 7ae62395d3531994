package coin

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
)

// vWant is what a set of files makes, in order of loading.
type vWant struct {
	trans, prices, tests []string
	accounts, coms, syms map[string]string
	files                int
	items                int
}

func vNotes(ns []string) string { return "[" + strings.Join(ns, "|") + "]" }

func vShowAmount(a *Amount) string {
	if a == nil {
		return "-"
	}
	return fmt.Sprintf("%s %s", a.Int.String(), a.Commodity.Id)
}

func vShowTrans(t *Transaction) string {
	s := fmt.Sprintf("%s:%d %s (%s) <%s> %s", t.file, t.line, t.Posted.Format(DateFormat), t.Code, t.Description, vNotes(t.Notes))
	for _, p := range t.Postings {
		s += fmt.Sprintf(" / %s %s = %s %v %s", p.accountName, vShowAmount(p.Quantity), vShowAmount(p.Balance), p.BalanceAsserted, vNotes(p.Notes))
	}
	return s
}

func vShowAccount(a *Account) string {
	closed := ""
	if !a.Closed.IsZero() {
		closed = a.Closed.Format(DateFormat)
	}
	return fmt.Sprintf("%s:%d %s %s <%s> %s closed %s %s %s %s", a.file, a.line, a.FullName, a.Name, a.Description, a.CommodityId, closed, a.OFXBankId, a.OFXAcctId, a.CSVAcctId)
}

func vShowCommodity(c *Commodity) string {
	return fmt.Sprintf("%s:%d %s <%s> %d %s %v", c.file, c.line, c.Id, c.Name, c.Decimals, c.Symbol, c.NoMarket)
}

func vPick(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

func vWords(r *rand.Rand) string {
	n := 1 + r.Intn(3)
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, vPick(r, "rent", "Shop 12", "caf\u00e9", "account", "include", "P", "a/b", "x:y", "=", "2020/01/01", "test"))
	}
	return strings.Join(ws, " ")
}

func init() { vSub["load"] = func() { vLoadNoted(os.Getenv("VERIF_ARG")) } }

// vFile writes a file of random items, and what it includes, adding what they make to w.
func vFile(r *rand.Rand, dir, fn string, depth int, w *vWant) {
	w.files++
	var b strings.Builder
	line := 0
	ln := func(format string, args ...any) {
		fmt.Fprintf(&b, format+"\n", args...)
		line++
	}
	ccy := func() string { return vPick(r, "CAD", "USD", "XAU1") }
	num := func(c string) (string, *big.Int) {
		n := big.NewInt(r.Int63n(100000) - 50000)
		return vDec(n, 2), n
	}
	skip := func() {
		for r.Intn(3) == 0 {
			ln("%s", vPick(r, "", "   ", "\t", "; a comment", "# account A", "% x", "| y", "* 2020/01/01 z", ";"))
		}
	}
	items := r.Intn(7)
	for k := 0; k < items; k++ {
		skip()
		w.items++
		at := line + 1
		switch r.Intn(7) {
		case 0: // account
			name := vPick(r, "Assets", "Assets:Bank", "Income:A_b-c/d", "X1", "Accounts:Sub:Sub")
			note, com, closed, bank, acct, csv := "", "CAD", "", "", "", ""
			ln("account %s", name)
			for r.Intn(2) == 0 {
				switch r.Intn(6) {
				case 0:
					note = vWords(r) + " ; more"
					ln("  note %s", note)
				case 1:
					com = ccy()
					ln("\tcommodity %s", com)
				case 2:
					closed = vDate(r.Intn(3000))
					ln("  closed %s", closed)
				case 3:
					bank = fmt.Sprint(r.Intn(1000))
					ln("  ofx_bankid %s", bank)
				case 4:
					acct = fmt.Sprintf("%03d", r.Intn(1000))
					ln("    ofx_acctid   %s", acct)
				case 5:
					csv = vPick(r, "abc", "0012", "a_1")
					ln("  csv_acctid %s", csv)
				}
			}
			parts := strings.Split(name, ":")
			w.accounts[name] = fmt.Sprintf("%s:%d %s %s <%s> %s closed %s %s %s %s", fn, at, name, parts[len(parts)-1], note, com, closed, bank, acct, csv)
		case 1: // commodity
			id := vPick(r, "EUR", "AAA", "b1", "Fund_2")
			note, dec, sym, nm := "", 2, "", false
			ln("commodity %s", id)
			for r.Intn(2) == 0 {
				switch r.Intn(4) {
				case 0:
					note = vWords(r)
					ln("  note %s", note)
				case 1:
					dec = r.Intn(5)
					ln("  format %s %s", vDec(big.NewInt(100), dec), id)
				case 2:
					sym = vPick(r, "SYM", "T.TO", "S2")
					ln("  symbol %s", sym)
				case 3:
					nm = true
					ln("  nomarket")
				}
			}
			d := fmt.Sprintf("%s:%d %s <%s> %d %s %v", fn, at, id, note, dec, sym, nm)
			w.coms[id] = d
			if sym != "" {
				w.syms[sym] = d
			}
		case 2: // price
			c1, c2 := ccy(), ccy()
			d := vDate(r.Intn(3000))
			t, n := num(c2)
			ln("P %s  %s %s %s", d, c1, t, c2)
			w.prices = append(w.prices, fmt.Sprintf("%s:%d %s %s %s %s", fn, at, d, c1, n.String(), c2))
		case 3: // test
			cmd := "balance " + vWords(r)
			res := ""
			ln("test %s", cmd)
			for r.Intn(3) > 0 {
				l := vPick(r, "account Hidden", "   1.00 CAD", "", "2020/01/01 hidden", "; not a comment", "commodity HID", "test more", "include nowhere.coin", "end test of what", "end tests", "  end  test", "trailing  ", "\ttab\t")
				ln("%s", l)
				res += l + "\n"
			}
			ln("%s", vPick(r, "end test", "  end test", "end test  "))
			w.tests = append(w.tests, fmt.Sprintf("%s:%d %s %q", fn, at, cmd, res))
		case 4: // include
			if depth >= 3 {
				w.items--
				continue
			}
			sub := fmt.Sprintf("f%d_%d", depth, w.items)
			switch r.Intn(3) {
			case 0:
				ln("include %s.coin", sub)
				vFile(r, dir, filepath.Join(filepath.Dir(fn), sub+".coin"), depth+1, w)
			case 1: // several, in name order
				ln("include %s_*.coin", sub)
				n := r.Intn(4)
				for i := 0; i < n; i++ {
					vFile(r, dir, filepath.Join(filepath.Dir(fn), fmt.Sprintf("%s_%d.coin", sub, i)), depth+1, w)
				}
			case 2: // another directory
				ln("include %s/in.coin", sub)
				os.MkdirAll(filepath.Join(filepath.Dir(fn), sub), 0700)
				vFile(r, dir, filepath.Join(filepath.Dir(fn), sub, "in.coin"), depth+1, w)
			}
		default: // transaction
			d := vDate(r.Intn(3000))
			code, desc := "", vWords(r)
			var notes []string
			head := d
			if r.Intn(3) == 0 {
				code = vPick(r, "12", "abc", "A_1")
				head += " (" + code + ")"
			}
			head += " " + desc
			if r.Intn(3) == 0 {
				notes = append(notes, vWords(r)+" #tag: v")
				head += vPick(r, " ; ", ";", "   ; ") + notes[0]
			}
			ln("%s", head)
			for r.Intn(3) == 0 {
				notes = append(notes, vWords(r))
				ln("  ; %s", notes[len(notes)-1])
			}
			posts := ""
			for i := r.Intn(4); i > 0; i-- {
				a := vPick(r, "Assets:Bank", "Income", "a:b:c", "X1")
				q, bal, asserted := "-", "-", false
				l := "  " + a
				if r.Intn(4) > 0 {
					c := ccy()
					t, n := num(c)
					q = n.String() + " " + c
					l += "  " + t + " " + c
					if r.Intn(3) == 0 {
						c = ccy()
						t, n = num(c)
						bal, asserted = n.String()+" "+c, true
						l += " = " + t + " " + c
					}
				}
				var ns []string
				if r.Intn(3) == 0 {
					ns = append(ns, vWords(r))
					l += " ; " + ns[0]
				}
				ln("%s", l)
				for r.Intn(3) == 0 {
					ns = append(ns, vWords(r))
					ln("    ; %s", ns[len(ns)-1])
				}
				posts += fmt.Sprintf(" / %s %s = %s %v %s", a, q, bal, asserted, vNotes(ns))
			}
			w.trans = append(w.trans, fmt.Sprintf("%s:%d %s (%s) <%s> %s%s", fn, at, d, code, desc, vNotes(notes), posts))
		}
	}
	skip()
	s := b.String()
	if r.Intn(3) == 0 {
		s = strings.TrimSuffix(s, "\n")
	}
	if err := os.WriteFile(fn, []byte(s), 0600); err != nil {
		panic(err)
	}
}

func vLoadNoted(fn string) {
	vReset()
	for _, c := range []string{"CAD", "USD", "XAU1"} {
		Commodities[c] = &Commodity{Id: c, Decimals: 2}
	}
	LoadFile(fn)
}

func vLines(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += k + " => " + m[k] + "\n"
	}
	return s
}

func TestVerifLoad(t *testing.T) {
	vRule("random files of all kinds of items, comments and blank lines, including other files by name, pattern and directory: the collections must hold exactly the items written, in order, with what each of them says; a file with an unknown or malformed item at a random place must stop loading with an error")
	r := vRand()
	dir, err := os.MkdirTemp(".", "load")
	if err != nil {
		panic(err)
	}
	for n := 0; n < vN(3000) && !vTime(12); n++ {
		d := filepath.Join(dir, fmt.Sprint(n))
		os.Mkdir(d, 0700)
		main := filepath.Join(d, "main.coin")
		w := &vWant{accounts: map[string]string{}, coms: map[string]string{}, syms: map[string]string{}}
		vFile(r, d, main, 0, w)
		text := func() string {
			s := ""
			filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
				if err == nil && !fi.IsDir() {
					b, _ := os.ReadFile(p)
					s += "--- " + p + "\n" + string(b)
				}
				return nil
			})
			return s
		}
		vCase(strings.Join(w.trans, "\n")+strings.Join(w.prices, "\n")+strings.Join(w.tests, "\n")+vLines(w.accounts)+vLines(w.coms), w.items > 2)
		if !vTry("load", text(), func() { vLoadNoted(main) }) {
			continue
		}
		cmp := func(what string, got []string, want []string) {
			g, w := strings.Split(strings.Join(got, "\n"), "\n"), strings.Split(strings.Join(want, "\n"), "\n")
			for i := 0; i < len(g) || i < len(w); i++ {
				a, b := "nothing", "nothing"
				if i < len(g) {
					a = g[i]
				}
				if i < len(w) {
					b = w[i]
				}
				if a != b {
					vBad(what, "%s, entry %d: loaded %s, written %s\nin\n%s", what, i, a, b, text())
					return
				}
			}
		}
		var ts, ps, es []string
		for _, t := range Transactions {
			ts = append(ts, vShowTrans(t))
		}
		for _, p := range Prices {
			ps = append(ps, fmt.Sprintf("%s:%d %s %s %s %s", p.file, p.line, p.Time.Format(DateFormat), p.CommodityId, p.Value.Int.String(), p.Value.Commodity.Id))
		}
		for _, e := range Tests {
			es = append(es, fmt.Sprintf("%s:%d %s %q", e.file, e.line, e.Cmd, e.Result))
		}
		as, cs, ss := map[string]string{}, map[string]string{}, map[string]string{}
		for k, a := range AccountsByName {
			as[k] = vShowAccount(a)
		}
		for k, c := range Commodities {
			if k != "CAD" && k != "USD" && k != "XAU1" {
				cs[k] = vShowCommodity(c)
			}
		}
		for k, c := range CommoditiesBySymbol {
			ss[k] = vShowCommodity(c)
		}
		cmp("transactions", ts, w.trans)
		cmp("prices", ps, w.prices)
		cmp("tests", es, w.tests)
		cmp("accounts", []string{vLines(as)}, []string{vLines(w.accounts)})
		cmp("commodities", []string{vLines(cs)}, []string{vLines(w.coms)})
		cmp("symbols", []string{vLines(ss)}, []string{vLines(w.syms)})
		if n%40 == 0 { // a bad line before, between or after the items
			b, _ := os.ReadFile(main)
			lines := strings.Split(string(b), "\n")
			bad := vPick(r, "hello", "~ x", "account", "account 1x", "commodity 9", "commodity", "include", "test ", "P 2020/01/01 CAD", "P 2020/01/01 CAD USD", "price 2020/01/01", "acount A")
			var out []string
			inTest, done := false, false
			at := r.Intn(len(lines) + 1)
			for i, l := range append(lines, "") {
				if i >= at && !inTest && !done && !(len(l) > 0 && (l[0] == ' ' || l[0] == '\t')) {
					out = append(out, bad)
					done = true
				}
				if strings.HasPrefix(l, "test ") {
					inTest = true
				}
				if strings.TrimSpace(l) == "end test" {
					inTest = false
				}
				out = append(out, l)
			}
			if !done {
				continue
			}
			os.WriteFile(main, []byte(strings.Join(out, "\n")), 0600)
			if code, msg := vChild("load", main); code == 0 {
				vBad("accepted", "loading\n%s\nsucceeds in spite of the line %q: %s", text(), bad, msg)
			}
			vCase("bad "+bad+fmt.Sprint(at), true)
		}
		os.RemoveAll(d)
	}
}
