package main

import (
	"encoding/csv"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"testing"

	"github.com/mkobetic/coin"
)

func vAmtText(r *rand.Rand) string {
	v := r.Int63n(200001) - 100000
	switch r.Intn(10) {
	case 0:
		v = 0
	case 1:
		v *= 1 << 40
	case 2:
		v %= 10
	}
	d := r.Intn(4)
	return new(big.Rat).SetFrac(big.NewInt(v), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d)), nil)).FloatString(d)
}

func vUnits(s string, d int) *big.Int {
	q, ok := new(big.Rat).SetString(s)
	if !ok {
		panic(s)
	}
	n := new(big.Int).Mul(q.Num(), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d)), nil))
	return n.Quo(n, q.Denom())
}

const vBooks = `commodity CAD
  format 1.00 CAD

commodity USD
  format 1.00 USD
  symbol UU

commodity VXF
  format 1.000 VXF
  symbol VX

commodity BND
  format 1 BND

account Assets:Inv
account Assets:Inv:USD
  commodity USD
account Assets:Inv:VXF
  commodity VXF
account Assets:Bank
account Assets:Bank:Deep:BND
  commodity BND
account Assets:Other
  ofx_acctid 555
account Expenses:Fees
account Expenses:Fees:USD
  commodity USD
account Income:Div
  commodity USD
`

var vDecs = map[string]int{"CAD": 2, "USD": 2, "VXF": 3, "BND": 0}
var vSyms = map[string]string{"UU": "USD", "VX": "VXF"}

// the account chosen below root for a commodity, as the ledger above has it
func vRefine(root, com string) string {
	own := map[string]string{"Assets:Inv": "CAD", "Assets:Inv:USD": "USD", "Assets:Inv:VXF": "VXF", "Assets:Bank": "CAD", "Assets:Bank:Deep": "CAD",
		"Assets:Bank:Deep:BND": "BND", "Assets:Other": "CAD", "Expenses:Fees": "CAD", "Expenses:Fees:USD": "USD", "Income:Div": "USD", "Unbalanced": "CAD"}
	var found []string
	for a, c := range own {
		if c == com && (a == root || strings.HasPrefix(a, root+":")) {
			found = append(found, a)
		}
	}
	if len(found) == 0 {
		return "Unbalanced"
	}
	return "|" + strings.Join(found, "|") + "|"
}

func vOne(choice, name string) bool {
	return choice == name || strings.Contains(choice, "|"+name+"|")
}

func TestVerifCsv(t *testing.T) {
	vRule("random CSV rows (cash records and trades, with and without currency, symbols for commodities, amounts of any sign) read through a source with shuffled columns and rules: each row gives one transaction with its date, payee and amounts, unless a rule drops it")
	r := vRand()
	for n := 0; n < vN(500) && !vTime(6); n++ {
		coin.Commodities = map[string]*coin.Commodity{}
		coin.CommoditiesBySymbol = map[string]*coin.Commodity{}
		coin.AccountsByName = map[string]*coin.Account{}
		coin.Prices, coin.Transactions, coin.Tests = nil, nil, nil
		coin.Root, coin.Unbalanced = nil, nil
		coin.DefaultCommodityId = "CAD"
		coin.Load(strings.NewReader(vBooks), "")
		coin.ResolveAccounts()
		col := r.Perm(len(labels))
		src := fmt.Sprintf("src %d\n", r.Intn(3))
		skip := int(src[4] - '0')
		for i, l := range labels {
			src += fmt.Sprintf("  %s %d\n", l, col[i])
		}
		rtext := src + "---\nINV Assets:Inv\n  -- DROP\n  Expenses:Fees FEE\n  Income:Div DIV\n  Assets:Inv SWAP\nBANK Assets:Bank\n  Expenses:Fees FEE\n  -- DROP\n"
		var rules *Rules
		if !vTry("rules", rtext, func() { rules = ReadRules(strings.NewReader(rtext)) }) {
			return
		}
		type rec map[string]string
		var recs []rec
		var rows [][]string
		for k := 0; k < skip; k++ {
			rows = append(rows, labels)
		}
		for k := 1 + r.Intn(5); k > 0; k-- {
			pick := func(s ...string) string { return s[r.Intn(len(s))] }
			x := rec{"account": pick("INV", "BANK", "555"), "description": pick("FEE", "DIV", "SWAP", "a  b", "FEE DROP", "x", " FEE 2 "),
				"date": fmt.Sprintf("2019/%02d/%02d", 1+r.Intn(12), 1+r.Intn(28)), "amount": vAmtText(r), "currency": pick("", "", "CAD", "USD", "UU"), "note": pick("", "", "n1")}
			if r.Intn(2) == 0 {
				x["symbol"] = pick("VXF", "VX", "BND", "USD")
				if r.Intn(4) > 0 {
					x["quantity"] = vAmtText(r)
				}
			}
			row := make([]string, len(labels))
			for i, l := range labels {
				row[col[i]] = x[l]
			}
			recs = append(recs, x)
			rows = append(rows, row)
		}
		var b strings.Builder
		w := csv.NewWriter(&b)
		w.WriteAll(rows)
		in := rtext + "\n" + b.String()
		var got []*coin.Transaction
		if !vTry("read", in, func() { got = readTransactions(strings.NewReader(b.String()), rules.sources["src"], rules) }) {
			continue
		}
		listed := map[*coin.Posting]int{}
		for _, a := range coin.AccountsByName {
			for _, p := range a.Postings {
				listed[p]++
			}
		}
		i := 0
		for k, x := range recs {
			payee := strings.Join(strings.Fields(x["description"]), " ")
			src := map[string]string{"INV": "Assets:Inv", "BANK": "Assets:Bank", "555": "Assets:Other"}[x["account"]]
			to := "Unbalanced"
			drop, fee := strings.Contains(payee, "DROP"), strings.Contains(payee, "FEE")
			switch x["account"] {
			case "INV":
				switch {
				case drop:
					to = ""
				case fee:
					to = "Expenses:Fees"
				case payee == "DIV":
					to = "Income:Div"
				case payee == "SWAP":
					to = "Assets:Inv"
				}
			case "BANK":
				if fee {
					to = "Expenses:Fees"
				} else if drop {
					to = ""
				}
			}
			vCase(fmt.Sprint(x), true)
			if to == "" {
				continue
			}
			if i >= len(got) {
				vBad("missing", "%s: row %d gives no transaction", in, k)
				break
			}
			tx := got[i]
			i++
			if tx.Posted.Format("2006/01/02") != x["date"] || tx.Description != payee {
				vBad("record", "%s: row %d gives %s", in, k, tx)
			}
			if len(tx.Postings) != 2 {
				vBad("pair", "%s: row %d gives %s", in, k, tx)
				continue
			}
			com := x["currency"]
			if com == "" {
				com = "CAD"
				if to == "Income:Div" {
					com = "USD"
				}
			}
			if s, ok := vSyms[com]; ok {
				com = s
			}
			v := vUnits(x["amount"], vDecs[com])
			sv, sc := new(big.Int).Set(v), com
			ov, oc := new(big.Int).Neg(v), com
			if x["symbol"] != "" && x["quantity"] != "" {
				sc = x["symbol"]
				if s, ok := vSyms[sc]; ok {
					sc = s
				}
				sv = vUnits(x["quantity"], vDecs[sc])
				if sv.Sign()*v.Sign() > 0 {
					sv.Neg(sv)
				}
				ov = v
			}
			p, q := tx.Postings[0], tx.Postings[1]
			if sv.Sign() < 0 {
				p, q = q, p
			}
			if p.Quantity.Int.Cmp(sv) != 0 || p.Quantity.Commodity.Id != sc || q.Quantity.Int.Cmp(ov) != 0 || q.Quantity.Commodity.Id != oc {
				vBad("amounts", "%s: row %d gives %s", in, k, tx)
			}
			if !vOne(vRefine(src, sc), p.Account.FullName) || !vOne(vRefine(to, oc), q.Account.FullName) {
				vBad("accounts", "%s: row %d gives %s, expected %s and %s", in, k, tx, vRefine(src, sc), vRefine(to, oc))
			}
			for _, p := range tx.Postings {
				if p.Transaction != tx || listed[p] != 1 || p.BalanceAsserted {
					vBad("listed", "%s: a posting of row %d is listed %d times", in, k, listed[p])
				}
			}
		}
		if i != len(got) {
			vBad("extra", "%s: %d transactions too many", in, len(got)-i)
		}
	}
}
