package coin

import (
	"fmt"
	"math/big"
	"math/rand"
	"testing"
)

func vPow(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

func vBig(r *rand.Rand) *big.Int {
	switch r.Intn(6) {
	case 0:
		return big.NewInt(int64(r.Intn(3) - 1))
	case 1:
		return big.NewInt(int64(r.Intn(2001) - 1000))
	case 2:
		return big.NewInt(r.Int63() - r.Int63())
	case 3:
		v := new(big.Int).Rand(r, vPow(25))
		if r.Intn(2) == 0 {
			v.Neg(v)
		}
		return v
	case 4: // a power of ten or a neighbour
		v := vPow(r.Intn(21))
		v.Add(v, big.NewInt(int64(r.Intn(3)-1)))
		if r.Intn(2) == 0 {
			v.Neg(v)
		}
		return v
	}
	return big.NewInt(int64(r.Intn(200001) - 100000))
}

func TestVerifAmounts(t *testing.T) {
	vRule("random amounts of 0 to 12 decimals, magnitudes up to 10^25, against exact integer arithmetic done here; arguments must keep their values and results must not share storage with them")
	r := vRand()
	for n := 0; n < vN(20000) && !vTime(8); n++ {
		ca := &Commodity{Id: "AAA", Decimals: r.Intn(13)}
		cb := ca
		if r.Intn(2) == 0 {
			cb = &Commodity{Id: "BBB", Decimals: r.Intn(13)}
		}
		x, y := vBig(r), vBig(r)
		if r.Intn(5) == 0 {
			y.Set(x)
		}
		a, b := NewAmount(new(big.Int).Set(x), ca), NewAmount(new(big.Int).Set(y), cb)
		in := fmt.Sprintf("a=%s/10^%d b=%s/10^%d same=%v", x, ca.Decimals, y, cb.Decimals, ca == cb)
		vCase(in, x.Sign() != 0 || y.Sign() != 0)
		vTry("amount", in, func() {
			keep := func(op string) {
				if a.Int.Cmp(x) != 0 || b.Int.Cmp(y) != 0 || a.Commodity != ca || b.Commodity != cb {
					vBad("mutates", "%s: %s changed its operands to %s and %s", in, op, a.Int, b.Int)
				}
			}
			is := func(op string, got *Amount, want *big.Int, c *Commodity) {
				if got == nil || got.Int.Cmp(want) != 0 || got.Commodity != c {
					vBad(op, "%s: %s gives %v, want %s of %s", in, op, got, want, c.Id)
				}
				if got != nil && (got.Int == a.Int || got.Int == b.Int) {
					vBad("aliases", "%s: result of %s shares storage with an operand", in, op)
				}
				keep(op)
			}
			is("Copy", a.Copy(), x, ca)
			is("Negated", a.Negated(), new(big.Int).Neg(x), ca)
			prod := new(big.Int).Mul(x, y)
			is("Times", a.Times(b), prod.Quo(prod, vPow(cb.Decimals)), ca)
			is("NewZeroAmount", NewZeroAmount(ca), new(big.Int), ca)
			if m := a.Magnitude(); m.CmpAbs(x) != 0 || m.Sign() < 0 || m == a.Int {
				vBad("Magnitude", "%s: Magnitude gives %s", in, m)
			}
			keep("Magnitude")
			// b in units of a: extra places dropped toward zero
			adj := new(big.Int).Set(y)
			if d := ca.Decimals - cb.Decimals; d > 0 {
				adj.Mul(adj, vPow(d))
			} else if d < 0 {
				adj.Quo(adj, vPow(-d))
			}
			c := x.Cmp(adj)
			if a.Cmp(b) != c || a.IsEqual(b) != (c == 0) || a.IsLessThan(b) != (c < 0) || a.IsMoreThan(b) != (c > 0) {
				vBad("Cmp", "%s: comparison gives %d eq=%v lt=%v gt=%v, want %d", in, a.Cmp(b), a.IsEqual(b), a.IsLessThan(b), a.IsMoreThan(b), c)
			}
			keep("Cmp")
			m := x.CmpAbs(adj)
			if a.CmpMagnitude(b) != m || a.IsBigger(b) != (m > 0) || a.IsSmaller(b) != (m < 0) {
				vBad("CmpMagnitude", "%s: magnitude comparison gives %d, want %d", in, a.CmpMagnitude(b), m)
			}
			keep("CmpMagnitude")
			if a.IsZero() != (x.Sign() == 0) {
				vBad("IsZero", "%s: IsZero is %v", in, a.IsZero())
			}
			if ca == cb {
				s := a.Copy()
				if err := s.AddIn(b); err != nil || s.Int.Cmp(new(big.Int).Add(x, y)) != 0 || s.Commodity != ca {
					vBad("AddIn", "%s: AddIn gives %v, %v", in, s, err)
				}
				keep("AddIn")
				d := a.Copy()
				if err := d.AddIn(d); err != nil || d.Int.Cmp(new(big.Int).Add(x, x)) != 0 {
					vBad("AddIn", "%s: adding an amount to itself gives %v, %v", in, d, err)
				}
			}
			if big1.Cmp(big.NewInt(1)) != 0 || bigPow10(7).Cmp(vPow(7)) != 0 {
				vBad("tables", "%s: shared powers of ten were modified", in)
			}
		})
	}
	for i := 0; i <= 50; i++ {
		i := i
		vTry("pow10", fmt.Sprint(i), func() {
			if bigPow10(i).Cmp(vPow(i)) != 0 {
				vBad("pow10", "bigPow10(%d) = %s", i, bigPow10(i))
			}
			if i <= 18 && big.NewInt(pow10(i)).Cmp(vPow(i)) != 0 {
				vBad("pow10", "pow10(%d) = %d", i, pow10(i))
			}
			if i < 50 {
				if l := bigLog10(vPow(i)); l != i {
					vBad("log10", "bigLog10(10^%d) = %d", i, l)
				}
				if l := bigLog10(new(big.Int).Sub(vPow(i+1), big1)); l != i {
					vBad("log10", "bigLog10(10^%d-1) = %d", i+1, l)
				}
			}
			if i <= 18 {
				if l := log10(vPow(i).Int64()); l != i {
					vBad("log10", "log10(10^%d) = %d", i, l)
				}
				if i > 0 {
					if l := log10(vPow(i).Int64() - 1); l != i-1 {
						vBad("log10", "log10(10^%d-1) = %d", i, l)
					}
				}
			}
		})
		vCase(fmt.Sprint("power ", i), true)
	}
}
