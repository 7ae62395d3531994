package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/mkobetic/coin"
)

const vOfxHead = `OFXHEADER:100
DATA:OFXSGML
VERSION:102
SECURITY:NONE
ENCODING:USASCII
CHARSET:1252
COMPRESSION:NONE
OLDFILEUID:NONE
NEWFILEUID:NONE

<OFX>
<SIGNONMSGSRSV1>
<SONRS>
<STATUS>
<CODE>0
<SEVERITY>INFO
</STATUS>
<DTSERVER>20190127181602.926[-5:EDT]
<LANGUAGE>ENG
</SONRS>
</SIGNONMSGSRSV1>
`

type vRec struct {
	date, name, memo, amt string
	fid                   int
}

func vOfxTrans(recs []vRec) string {
	s := "<BANKTRANLIST>\n<DTSTART>20190127000000.000[-5:EDT]\n<DTEND>20190127000000.000[-5:EDT]\n"
	for _, x := range recs {
		s += fmt.Sprintf("<STMTTRN>\n<TRNTYPE>DEBIT\n<DTPOSTED>%s0000.000[-5:EDT]\n<TRNAMT>%s\n<FITID>%d\n<NAME>%s\n", x.date, x.amt, x.fid, x.name)
		if x.memo != "" {
			s += "<MEMO>" + x.memo + "\n"
		}
		s += "</STMTTRN>\n"
	}
	return s + "</BANKTRANLIST>\n"
}

func vOfx(id string, recs []vRec, bal string, card bool) string {
	status := "<STATUS>\n<CODE>0\n<SEVERITY>INFO\n</STATUS>\n"
	tail := "<LEDGERBAL>\n<BALAMT>" + bal + "\n<DTASOF>20190131000000.000[-5:EDT]\n</LEDGERBAL>\n"
	if card {
		return vOfxHead + "<CREDITCARDMSGSRSV1>\n<CCSTMTTRNRS>\n<TRNUID>1\n" + status + "<CCSTMTRS>\n<CURDEF>CAD\n<CCACCTFROM>\n<ACCTID>" + id +
			"\n</CCACCTFROM>\n" + vOfxTrans(recs) + tail + "</CCSTMTRS>\n</CCSTMTTRNRS>\n</CREDITCARDMSGSRSV1>\n</OFX>\n"
	}
	return vOfxHead + "<BANKMSGSRSV1>\n<STMTTRNRS>\n<TRNUID>1\n" + status + "<STMTRS>\n<CURDEF>CAD\n<BANKACCTFROM>\n<BANKID>200000100\n<ACCTID>" + id +
		"\n<ACCTTYPE>CHECKING\n</BANKACCTFROM>\n" + vOfxTrans(recs) + tail + "</STMTRS>\n</STMTTRNRS>\n</BANKMSGSRSV1>\n</OFX>\n"
}

func vAmtText(r *rand.Rand) string {
	v := r.Int63n(200001) - 100000
	switch r.Intn(10) {
	case 0:
		v = 0
	case 1:
		v *= 1 << 40
	case 2:
		v %= 10
	}
	d := r.Intn(4)
	s := new(big.Rat).SetFrac(big.NewInt(v), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d)), nil)).FloatString(d)
	return s
}

// vUnits is the decimal text in units of 10^-d, excess decimals dropped.
func vUnits(s string, d int) *big.Int {
	q, ok := new(big.Rat).SetString(s)
	if !ok {
		panic(s)
	}
	n := new(big.Int).Mul(q.Num(), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d)), nil))
	return n.Quo(n, q.Denom())
}

func TestVerifOfx(t *testing.T) {
	vRule("random OFX bank and card statements (amounts of any sign with 0 to 3 decimals, closing balance, payee and memo) read with random rules: each record gives one transaction with its date, payee, amount and balance, unless a rule drops it")
	r := vRand()
	for n := 0; n < vN(400) && !vTime(6); n++ {
		dec := r.Intn(4)
		coin.Commodities = map[string]*coin.Commodity{}
		coin.CommoditiesBySymbol = map[string]*coin.Commodity{}
		coin.AccountsByName = map[string]*coin.Account{}
		coin.Prices, coin.Transactions, coin.Tests = nil, nil, nil
		coin.Root, coin.Unbalanced = nil, nil
		coin.DefaultCommodityId = "CAD"
		form := "1." + strings.Repeat("0", dec)
		if dec == 0 {
			form = "1"
		}
		coin.Load(strings.NewReader("commodity CAD\n  format "+form+" CAD\n\naccount Assets:Bank\n\naccount Assets:Other\n  ofx_acctid 555\n\naccount Expenses:Food\n\naccount Income:Pay\n"), "")
		coin.ResolveAccounts()
		rtext := "123 Assets:Bank\n  -- DROP\n  Expenses:Food FOOD\n  ; a note\n  Income:Pay PAY\n"
		if r.Intn(4) == 0 {
			rtext += "  Assets:Bank SELF\n"
		}
		rules, err := coin.ReadRules(strings.NewReader(rtext))
		if err != nil {
			vBad("rules", "%q: %v", rtext, err)
			return
		}
		id, src := "123", "Assets:Bank"
		if r.Intn(4) == 0 {
			id, src = "555", "Assets:Other"
		}
		card := r.Intn(3) == 0
		var recs []vRec
		for k := 1 + r.Intn(6); k > 0; k-- {
			w := []string{"FOOD", "PAY", "DROP", "SELF", "X", "FOOD DROP", "Y FOOD", "X   Y"}
			x := vRec{fmt.Sprintf("2019%02d%02d%02d", 1+r.Intn(12), 1+r.Intn(28), []int{12, 12, 0, 23, 5, 19}[r.Intn(6)]), w[r.Intn(len(w))], "", vAmtText(r), len(recs) + 1}
			if r.Intn(3) == 0 {
				x.memo = w[r.Intn(len(w))]
			}
			recs = append(recs, x)
		}
		bal := vAmtText(r)
		in := vOfx(id, recs, bal, card)
		var got []*coin.Transaction
		if !vTry("read", rtext+in, func() { got, err = readTransactions(strings.NewReader(in), rules) }) {
			continue
		}
		if err != nil {
			vBad("refused", "%s: %v", in, err)
			continue
		}
		listed := map[*coin.Posting]int{}
		for _, a := range coin.AccountsByName {
			for _, p := range a.Postings {
				listed[p]++
			}
		}
		i := 0
		what := strings.TrimPrefix(in, vOfxHead)
		for k, x := range recs {
			payee := strings.Join(strings.Fields(x.name+x.memo), " ")
			if card {
				payee = x.name
			}
			to := "Unbalanced"
			if id == "123" {
				switch {
				case strings.Contains(payee, "DROP"):
					to = ""
				case strings.Contains(payee, "FOOD"):
					to = "Expenses:Food"
				case strings.Contains(payee, "PAY"):
					to = "Income:Pay"
				case strings.Contains(payee, "SELF") && strings.Contains(rtext, "SELF"):
					to = src
				}
			}
			vCase(fmt.Sprint(x, to, dec), true)
			if to == "" {
				continue
			}
			if i >= len(got) {
				vBad("missing", "%s: record %d gives no transaction", what, k)
				break
			}
			tx := got[i]
			i++
			if at, _ := time.Parse("2006010215-07", x.date+"-05"); !tx.Posted.Equal(at) || tx.Posted.Format("2006010215") != x.date || tx.Description != payee {
				vBad("record", "%s: record %d gives %s", what, k, tx)
			}
			if len(tx.Postings) != 2 {
				vBad("pair", "%s: record %d gives %s", what, k, tx)
				continue
			}
			v := vUnits(x.amt, dec)
			p, q := tx.Postings[0], tx.Postings[1]
			if v.Sign() < 0 {
				p, q = q, p
			}
			if p.Account.FullName != src || q.Account.FullName != to || p.Quantity.Int.Cmp(v) != 0 || q.Quantity.Int.Cmp(new(big.Int).Neg(v)) != 0 ||
				p.Quantity.Commodity.Id != "CAD" || q.Quantity.Commodity.Id != "CAD" {
				vBad("amounts", "%s: record %d (to %s) gives %s", what, k, to, tx)
			}
			last := k == len(recs)-1 && !card
			if p.BalanceAsserted != last || (p.Balance != nil) != last || last && p.Balance.Int.Cmp(vUnits(bal, dec)) != 0 || q.BalanceAsserted || q.Balance != nil {
				vBad("balances", "%s: record %d gives %s", what, k, tx)
			}
			for _, p := range tx.Postings {
				if p.Transaction != tx || listed[p] != 1 {
					vBad("listed", "%s: a posting of record %d is listed %d times", what, k, listed[p])
				}
			}
		}
		if i != len(got) {
			vBad("extra", "%s: %d transactions too many", what, len(got)-i)
		}
	}
}
