package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/mkobetic/coin"
)

// vCond is a tag condition that the harness reads on its own: an optional !, a word the key contains and optionally a word the value contains.
type vCond struct {
	inv      bool
	key, val string
	hasVal   bool
}

func (c *vCond) text() string {
	if c == nil {
		return ""
	}
	s := c.key
	if c.inv {
		s = "!" + s
	}
	if c.hasVal {
		s += ":" + c.val
	}
	return s
}

func (c *vCond) holds(tags map[string]string) bool {
	for k, v := range tags {
		m := strings.Contains(strings.ToLower(k), strings.ToLower(c.key)) && (!c.hasVal || strings.Contains(strings.ToLower(v), strings.ToLower(c.val)))
		if m != c.inv {
			return true
		}
	}
	return false
}

func vSomeCond(r *rand.Rand) *vCond {
	if r.Intn(2) == 0 {
		return nil
	}
	c := &vCond{inv: r.Intn(5) == 0, key: []string{"food", "trip", "X", "oo"}[r.Intn(4)]}
	if r.Intn(3) == 0 {
		c.hasVal, c.val = true, []string{"rome", "o", "oslo", ""}[r.Intn(4)]
	}
	return c
}

// vSnap is what a transaction was before.
type vSnapPost struct {
	p       *coin.Posting
	acct    *coin.Account
	qty     string
	bal     string
	notes   []string
	tags    map[string]string
	assert  bool
	hasPost bool
}

type vSnap struct {
	t                 *coin.Transaction
	date, code, descr string
	notes             []string
	tags              map[string]string
	posts             []vSnapPost
}

func vSnapOf(t *coin.Transaction) vSnap {
	s := vSnap{t: t, date: t.Posted.String(), code: t.Code, descr: t.Description, notes: append([]string{}, t.Notes...), tags: map[string]string{}}
	for k, v := range t.Tags {
		s.tags[k] = v
	}
	for _, p := range t.Postings {
		q := vSnapPost{p: p, acct: p.Account, qty: fmt.Sprintf("%s %s", p.Quantity.Int, p.Quantity.Commodity.Id), notes: append([]string{}, p.Notes...), tags: map[string]string{}, assert: p.BalanceAsserted}
		if p.Balance != nil {
			q.bal = p.Balance.Int.String()
		}
		for k, v := range p.Tags {
			q.tags[k] = v
		}
		s.posts = append(s.posts, q)
	}
	return s
}

// vTagged: the new notes are the old ones with the tag put after one of them or on a line of its own.
func vTagged(old, now []string, tag string) bool {
	if tag == "" {
		return vSame(old, now)
	}
	for i := 0; i <= len(old); i++ {
		if vSame(append(append(append([]string{}, old[:i]...), tag), old[i:]...), now) {
			return true
		}
		if i < len(old) {
			l := append([]string{}, old...)
			for _, sep := range []string{" ", ", "} {
				l[i] = old[i] + sep + tag
				if vSame(l, now) && vSameTags(old, now, tag) {
					return true
				}
			}
		}
	}
	return false
}

// vSameTags: read again, the notes have the tags they had and the added ones.
func vSameTags(old, now []string, tag string) bool {
	want := map[string]string{}
	for k, v := range coin.ParseTags(old...) {
		want[k] = v
	}
	for _, one := range strings.Split(tag, ", ") {
		k, v, _ := strings.Cut(strings.TrimPrefix(one, "#"), ":")
		want[k] = v
	}
	got := coin.ParseTags(now...)
	for k, v := range want {
		if w, ok := got[k]; !ok || w != v {
			return false
		}
	}
	return len(got) == len(want)
}

func vSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vNoteLines(r *rand.Rand) (out []string) {
	for n := r.Intn(3); n > 0; n-- {
		l := strings.TrimSpace(vTagText(vSomeTags(r)))
		if r.Intn(2) == 0 {
			l = strings.Repeat("note ", r.Intn(17)) + l
		}
		l = strings.TrimSuffix(strings.TrimSpace(l), ",")
		if l != "" {
			out = append(out, l)
		}
	}
	return
}

func TestVerifModify(t *testing.T) {
	vRule("random ledgers of up to 6 transactions with 2 to 5 postings over 5 accounts, notes and tags of varied length, and every combination of the modify conditions and changes given as flags, on stdout and on files rewritten in place: accounts, notes, everything else and the counts against the conditions read independently")
	r := vRand()
	for n := 0; n < vN(6000) && !vTime(6); n++ {
		accts := []string{"A", "A:B", "A:C", "D", "D:E"}
		var s strings.Builder
		s.WriteString("commodity CAD\n  format 1.00 CAD\n\n")
		for _, a := range accts {
			s.WriteString("account " + a + "\n  commodity CAD\n\n")
		}
		head := s.String()
		s.Reset()
		for k := r.Intn(7); k > 0; k-- {
			y, m, d := vCivil(18500 + r.Intn(4))
			fmt.Fprintf(&s, "%04d/%02d/%02d %s%s", y, m, d, []string{"", "", "(Shop7) ", "(x) "}[r.Intn(4)], []string{"Shop", "Bank", "Post Office", "shopping"}[r.Intn(4)])
			s.WriteString("\n")
			for _, l := range vNoteLines(r) {
				s.WriteString("  ; " + l + "\n")
			}
			np := 2 + r.Intn(4)
			if r.Intn(12) == 0 {
				np = 0
			}
			sum := 0
			for i := 0; i < np; i++ {
				q := r.Intn(2001) - 1000
				if i == np-1 {
					q = -sum
				}
				sum += q
				fmt.Fprintf(&s, "  %s  %d.00 CAD\n", accts[r.Intn(len(accts))], q)
				for _, l := range vNoteLines(r) {
					s.WriteString("    ; " + l + "\n")
				}
			}
			s.WriteString("\n")
		}
		text := s.String()
		var args []string
		payee, from, to, settt, setpt := "", "", "", "", ""
		if r.Intn(3) == 0 {
			payee = []string{"shop", "Bank", "o"}[r.Intn(3)]
			args = append(args, "-p", payee)
		}
		tt, pt := vSomeCond(r), vSomeCond(r)
		if tt != nil {
			args = append(args, "-tt", tt.text())
		}
		if pt != nil {
			args = append(args, "-pt", pt.text())
		}
		if r.Intn(3) > 0 {
			from = accts[r.Intn(len(accts))]
			args = append(args, "-a", from)
		}
		if r.Intn(2) == 0 {
			to = accts[r.Intn(len(accts))]
			args = append(args, "-a:", to)
		}
		if r.Intn(2) == 0 {
			settt = []string{"#new", "#new:one", "#also:x y, #new:one", "#also, #new"}[r.Intn(4)]
			args = append(args, "-tt:", settt)
		}
		if r.Intn(2) == 0 {
			setpt = []string{"#padd", "#padd:two", "#more:1, #padd:two"}[r.Intn(3)]
			args = append(args, "-pt:", setpt)
		}
		files := r.Intn(25) == 0
		key := fmt.Sprintf("%q file=%v\n%s", args, files, text)
		vCase(key, len(args) > 1 && len(text) > 0)
		vTry(key, key, func() {
			if files {
				vModifyFile(key, head, text, args)
				return
			}
			vLoadMain(head + text)
			var before []vSnap
			for _, tr := range coin.Transactions {
				before = append(before, vSnapOf(tr))
			}
			cmd := (*cmdModify)(nil).newCommand("modify").(*cmdModify)
			if err := cmd.FlagSet.Parse(args); err != nil {
				vBad(key, "flags refused: %s", err)
				return
			}
			var w bytes.Buffer
			var each []bool
			if r.Intn(2) == 0 {
				cmd.execute(&w)
			} else { // the internal fields as execute sets them, each transaction on its own
				ts := coin.Transactions
				coin.Transactions = nil
				cmd.execute(&w)
				coin.Transactions = ts
				for _, tr := range ts {
					each = append(each, cmd.modify(tr))
				}
			}
			seen := map[*coin.Posting]*coin.Account{}
			for i, b := range before {
				considered := (payee == "" || strings.Contains(strings.ToLower(b.descr), strings.ToLower(payee))) && (tt == nil || tt.holds(b.tags))
				tr := coin.Transactions[i]
				if tr != b.t || tr.Posted.String() != b.date || tr.Code != b.code || tr.Description != b.descr || len(tr.Postings) != len(b.posts) {
					vBad(key, "transaction %d is not the same: %v", i, tr)
					return
				}
				on, changed := false, false
				for j, q := range b.posts {
					p := tr.Postings[j]
					hit := considered && (from != "" && q.acct.FullName == from || pt != nil && pt.holds(q.tags))
					on = on || from != "" && q.acct.FullName == from
					want, tag := q.acct.FullName, ""
					if hit && to != "" {
						want = to
						changed = true
					}
					if hit && setpt != "" {
						tag = setpt
						changed = true
					}
					bal := ""
					if p.Balance != nil {
						bal = p.Balance.Int.String()
					}
					if p != q.p || p.Transaction != tr || p.Account.FullName != want || fmt.Sprintf("%s %s", p.Quantity.Int, p.Quantity.Commodity.Id) != q.qty || bal != q.bal || p.BalanceAsserted != q.assert {
						vBad(key, "transaction %d posting %d should be %s on %s, is %v", i, j, q.qty, want, p)
						return
					}
					if !vTagged(q.notes, p.Notes, tag) {
						vBad(key, "transaction %d posting %d: notes %q became %q, tag to add: %q", i, j, q.notes, p.Notes, tag)
						return
					}
					seen[p] = p.Account
				}
				tag := ""
				if considered && settt != "" && (from == "" || on) {
					tag = settt
					changed = true
				}
				if !vTagged(b.notes, tr.Notes, tag) {
					vBad(key, "transaction %d: notes %q became %q, tag to add: %q", i, b.notes, tr.Notes, tag)
					return
				}
				if each != nil && each[i] != changed {
					vBad(key, "transaction %d counted as updated: %v, changed: %v", i, each[i], changed)
					return
				}
			}
			for _, a := range accts {
				acc := coin.AccountsByName[a]
				for i, p := range acc.Postings {
					if seen[p] != acc {
						vBad(key, "account %s lists a posting it should not (or twice): %v", a, p)
						return
					}
					delete(seen, p)
					if i > 0 && p.Transaction.Posted.Before(acc.Postings[i-1].Transaction.Posted) {
						vBad(key, "account %s is not in date order", a)
						return
					}
				}
			}
			if len(seen) > 0 {
				vBad(key, "postings missing from their accounts: %d", len(seen))
			}
		})
	}
}

// vModifyFile: the file rewritten in place holds what the command prints for the same ledger, and the count is right.
func vModifyFile(key, head, text string, args []string) {
	run := func(files ...string) (string, *cmdModify) {
		cmd := (*cmdModify)(nil).newCommand("modify").(*cmdModify)
		if err := cmd.FlagSet.Parse(append(append([]string{}, args...), files...)); err != nil {
			vBad(key, "flags refused: %s", err)
			return "", nil
		}
		var w bytes.Buffer
		cmd.execute(&w)
		return w.String(), cmd
	}
	vLoadMain(head + text)
	want, _ := run()
	vLoadMain(head + text)
	ts := coin.Transactions
	coin.Transactions = nil
	_, cmd := run()
	count := 0
	for _, tr := range ts {
		if cmd.modify(tr) {
			count++
		}
	}
	dir, err := os.MkdirTemp("", "c18")
	if err != nil {
		vBad(key, "%s", err)
		return
	}
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "l.coin")
	os.WriteFile(fn, []byte(text), 0644)
	vLoadMain(head)
	msg := vStderr(func() { run(fn) })
	got, _ := os.ReadFile(fn)
	if !vSameTx(string(got), want) {
		vBad(key, "file: %q\nprinted: %q", got, want)
	}
	if exp := fmt.Sprintf("Updated %d transactions in %s\n", count, fn); !strings.Contains(msg, exp) {
		vBad(key, "reported %q, expected %q", msg, exp)
	}
}

// vSameTx compares two listings of transactions apart from their order and layout.
func vSameTx(a, b string) bool {
	split := func(s string) (out []string) {
		for _, t := range strings.Split(s, "\n\n") {
			if t = strings.Join(strings.Fields(t), " "); t != "" {
				out = append(out, t)
			}
		}
		sort.Strings(out)
		return
	}
	return vSame(split(a), split(b))
}
