package main

// Hash-consed SMT terms with light simplification, and SMT-LIB printing.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Term struct {
	op   string // operator or symbol name; for "int" see val; for "forall"/"exists" see bvs
	args []*Term
	sort string
	id   int
	val  *big.Int
	bvs  []*Term
	pats [][]*Term
	free map[int]bool // ids of free bound variables (nil if closed)
	sym  bool         // declared constant symbol
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SStr  = "Str"
	SReal = "Real"
)

func arr(k, v string) string { return "(Array " + k + " " + v + ")" }

// arrParts splits "(Array K V)" into K and V
func arrParts(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

type TB struct {
	tab    map[string]*Term
	n      int
	decls  map[string]string // symbol -> "() Sort"
	funs   map[string]string // function -> signature text
	fsort  map[string]string // function -> result sort
	order  []string          // declaration order of symbols and functions
	fresh  map[string]int
	bvn    int
	strs   map[string]*Term // string literals
	strOrd []string
	sorts  map[string]bool
}

func NewTB() *TB {
	return &TB{tab: map[string]*Term{}, decls: map[string]string{}, funs: map[string]string{}, fsort: map[string]string{},
		fresh: map[string]int{}, strs: map[string]*Term{}, sorts: map[string]bool{}}
}

func (b *TB) intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.sort)
	if t.val != nil {
		sb.WriteString(t.val.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if len(t.bvs) > 0 {
		sb.WriteByte('#')
		for _, a := range t.bvs {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
		for _, p := range t.pats {
			sb.WriteByte('!')
			for _, a := range p {
				fmt.Fprintf(&sb, ",%d", a.id)
			}
		}
	}
	k := sb.String()
	if e := b.tab[k]; e != nil {
		return e
	}
	b.n++
	t.id = b.n
	for _, a := range t.args {
		for f := range a.free {
			if t.free == nil {
				t.free = map[int]bool{}
			}
			t.free[f] = true
		}
	}
	if t.op == "bv" {
		t.free = map[int]bool{t.id: true}
	}
	for _, v := range t.bvs {
		delete(t.free, v.id)
	}
	if len(t.free) == 0 {
		t.free = nil
	}
	b.tab[k] = t
	return t
}

func (b *TB) mk(op, sort string, args ...*Term) *Term {
	for _, a := range args {
		if a == nil {
			panic("nil arg to " + op)
		}
	}
	return b.intern(&Term{op: op, sort: sort, args: args})
}

func (b *TB) Int(n int64) *Term { return b.BigInt(big.NewInt(n)) }
func (b *TB) BigInt(n *big.Int) *Term {
	return b.intern(&Term{op: "int", sort: SInt, val: n})
}
func (b *TB) True() *Term  { return b.mk("true", SBool) }
func (b *TB) False() *Term { return b.mk("false", SBool) }
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.True()
	}
	return b.False()
}

// Sym is a declared constant.
func (b *TB) Sym(name, sort string) *Term {
	if s, ok := b.decls[name]; ok {
		if s != sort {
			panic("symbol " + name + " redeclared " + s + " vs " + sort)
		}
	} else {
		b.decls[name] = sort
		b.order = append(b.order, name)
	}
	t := b.intern(&Term{op: name, sort: sort, sym: true})
	return t
}

func (b *TB) Fresh(hint, sort string) *Term {
	b.fresh[hint]++
	return b.Sym(fmt.Sprintf("%s!%d", hint, b.fresh[hint]), sort)
}

func (b *TB) BV(hint, sort string) *Term {
	b.bvn++
	return b.mk("bv", sort, b.mk(fmt.Sprintf("?%s_%d", hint, b.bvn), "name"))
}

// Fun applies a declared uninterpreted function.
func (b *TB) Fun(name, ret string, args ...*Term) *Term {
	if _, ok := b.funs[name]; !ok {
		var ss []string
		for _, a := range args {
			ss = append(ss, a.sort)
		}
		b.funs[name] = "(" + strings.Join(ss, " ") + ") " + ret
		b.fsort[name] = ret
		b.order = append(b.order, name)
	}
	return b.mk(name, ret, args...)
}

func (b *TB) isTrue(t *Term) bool  { return t.op == "true" }
func (b *TB) isFalse(t *Term) bool { return t.op == "false" }

func (b *TB) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return b.False()
	case "false":
		return b.True()
	case "not":
		return a.args[0]
	}
	return b.mk("not", SBool, a)
}

func (b *TB) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.op == "true" || seen[t.id] {
			return true
		}
		if t.op == "false" {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return b.False()
		}
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0].id] {
			return b.False()
		}
	}
	switch len(out) {
	case 0:
		return b.True()
	case 1:
		return out[0]
	}
	return b.mk("and", SBool, out...)
}

func (b *TB) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.op == "false" || seen[a.id] {
			continue
		}
		if a.op == "true" {
			return a
		}
		if a.op == "or" {
			for _, c := range a.args {
				if !seen[c.id] {
					seen[c.id] = true
					out = append(out, c)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0].id] {
			return b.True()
		}
	}
	// (and p q) or (and p (not q)) => p : common at join points
	for ch := true; ch; {
		ch = false
		for i := 0; i < len(out) && !ch; i++ {
			for j := i + 1; j < len(out) && !ch; j++ {
				if r := b.factor(out[i], out[j]); r != nil {
					no := append([]*Term{}, out[:i]...)
					no = append(no, r)
					no = append(no, out[i+1:j]...)
					no = append(no, out[j+1:]...)
					return b.Or(no...)
				}
			}
		}
	}
	switch len(out) {
	case 0:
		return b.False()
	case 1:
		return out[0]
	}
	return b.mk("or", SBool, out...)
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func (b *TB) factor(x, y *Term) *Term {
	cx, cy := conj(x), conj(y)
	if len(cx) != len(cy) {
		return nil
	}
	my := map[int]bool{}
	for _, t := range cy {
		my[t.id] = true
	}
	var common []*Term
	var dx *Term
	for _, t := range cx {
		if my[t.id] {
			common = append(common, t)
		} else if dx == nil {
			dx = t
		} else {
			return nil
		}
	}
	if dx == nil || len(common) != len(cx)-1 {
		return nil
	}
	if my[b.Not(dx).id] {
		return b.And(common...)
	}
	return nil
}

func (b *TB) Imp(a, c *Term) *Term {
	if a.op == "true" {
		return c
	}
	if a.op == "false" || c.op == "true" {
		return b.True()
	}
	if c.op == "false" {
		return b.Not(a)
	}
	if a == c {
		return b.True()
	}
	return b.mk("=>", SBool, a, c)
}

func (b *TB) Ite(c, x, y *Term) *Term {
	if c.op == "true" || x == y {
		return x
	}
	if c.op == "false" {
		return y
	}
	if c.op == "not" {
		return b.Ite(c.args[0], y, x)
	}
	if x.sort != y.sort {
		panic("ite sorts " + x.sort + " " + y.sort)
	}
	if x.sort == SBool {
		if x.op == "true" && y.op == "false" {
			return c
		}
		if x.op == "false" && y.op == "true" {
			return b.Not(c)
		}
		if x.op == "true" {
			return b.Or(c, y)
		}
		if x.op == "false" {
			return b.And(b.Not(c), y)
		}
		if y.op == "true" {
			return b.Or(b.Not(c), x)
		}
		if y.op == "false" {
			return b.And(c, x)
		}
	}
	if x.op == "ite" && x.args[0] == c {
		x = x.args[1]
	}
	if y.op == "ite" && y.args[0] == c {
		y = y.args[2]
	}
	if x == y {
		return x
	}
	return b.mk("ite", x.sort, c, x, y)
}

// linear normal form helper: returns (term, const)
func (b *TB) splitConst(t *Term) (*Term, *big.Int) {
	if t.op == "int" {
		return nil, t.val
	}
	if t.op == "+" && t.args[len(t.args)-1].op == "int" {
		k := t.args[len(t.args)-1].val
		rest := t.args[:len(t.args)-1]
		if len(rest) == 1 {
			return rest[0], k
		}
		return b.mk("+", SInt, rest...), k
	}
	return t, big.NewInt(0)
}

type mono struct {
	t *Term
	k *big.Int
}

func (b *TB) linear(t *Term, k *big.Int, m map[int]*mono, c *big.Int) {
	switch t.op {
	case "int":
		c.Add(c, new(big.Int).Mul(k, t.val))
	case "+", "ix":
		for _, a := range t.args {
			b.linear(a, k, m, c)
		}
	case "-":
		if len(t.args) == 1 {
			b.linear(t.args[0], new(big.Int).Neg(k), m, c)
		} else {
			b.linear(t.args[0], k, m, c)
			for _, a := range t.args[1:] {
				b.linear(a, new(big.Int).Neg(k), m, c)
			}
		}
	case "*":
		if len(t.args) == 2 && t.args[0].op == "int" {
			b.linear(t.args[1], new(big.Int).Mul(k, t.args[0].val), m, c)
			return
		}
		fallthrough
	default:
		e := m[t.id]
		if e == nil {
			e = &mono{t, new(big.Int)}
			m[t.id] = e
		}
		e.k.Add(e.k, k)
	}
}

func (b *TB) fromLinear(m map[int]*mono, c *big.Int) *Term {
	var ms []*mono
	for _, e := range m {
		if e.k.Sign() != 0 {
			ms = append(ms, e)
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].t.id < ms[j].t.id })
	var args []*Term
	one := big.NewInt(1)
	for _, e := range ms {
		if e.k.Cmp(one) == 0 {
			args = append(args, e.t)
		} else {
			args = append(args, b.mk("*", SInt, b.BigInt(e.k), e.t))
		}
	}
	if c.Sign() != 0 || len(args) == 0 {
		args = append(args, b.BigInt(new(big.Int).Set(c)))
	}
	if len(args) == 1 {
		return args[0]
	}
	return b.mk("+", SInt, args...)
}

func (b *TB) Add(as ...*Term) *Term {
	if len(as) > 0 && as[0].sort == SReal {
		return b.mk("+", SReal, as...)
	}
	m := map[int]*mono{}
	c := new(big.Int)
	for _, a := range as {
		b.linear(a, big.NewInt(1), m, c)
	}
	return b.fromLinear(m, c)
}
func (b *TB) Sub(x, y *Term) *Term {
	if x.sort == SReal {
		return b.mk("-", SReal, x, y)
	}
	m := map[int]*mono{}
	c := new(big.Int)
	b.linear(x, big.NewInt(1), m, c)
	b.linear(y, big.NewInt(-1), m, c)
	return b.fromLinear(m, c)
}
func (b *TB) Neg(x *Term) *Term { return b.Sub(b.Int(0), x) }
func (b *TB) Mul(x, y *Term) *Term {
	if x.sort == SReal {
		return b.mk("*", SReal, x, y)
	}
	if y.op == "int" {
		x, y = y, x
	}
	if x.op == "int" {
		if x.val.Sign() == 0 {
			return x
		}
		m := map[int]*mono{}
		c := new(big.Int)
		b.linear(y, x.val, m, c)
		return b.fromLinear(m, c)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.Fun("mul", SInt, x, y)
}

func (b *TB) cmp(op string, x, y *Term) *Term {
	if x.sort == SInt {
		m := map[int]*mono{}
		c := new(big.Int)
		b.linear(x, big.NewInt(1), m, c)
		b.linear(y, big.NewInt(-1), m, c)
		zero := true
		for _, e := range m {
			if e.k.Sign() != 0 {
				zero = false
			}
		}
		if zero {
			s := c.Sign()
			switch op {
			case "<":
				return b.Bool(s < 0)
			case "<=":
				return b.Bool(s <= 0)
			}
		}
	}
	return b.mk(op, SBool, x, y)
}
func (b *TB) Lt(x, y *Term) *Term { return b.cmp("<", x, y) }
func (b *TB) Le(x, y *Term) *Term { return b.cmp("<=", x, y) }

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True()
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", x.sort, y.sort, b.Show(x), b.Show(y)))
	}
	if x.sort == SBool {
		if x.op == "true" {
			return y
		}
		if y.op == "true" {
			return x
		}
		if x.op == "false" {
			return b.Not(y)
		}
		if y.op == "false" {
			return b.Not(x)
		}
	}
	if x.sort == SInt {
		m := map[int]*mono{}
		c := new(big.Int)
		b.linear(x, big.NewInt(1), m, c)
		b.linear(y, big.NewInt(-1), m, c)
		zero := true
		for _, e := range m {
			if e.k.Sign() != 0 {
				zero = false
			}
		}
		if zero {
			return b.Bool(c.Sign() == 0)
		}
	}
	if x.sort == SStr && x.op == "strlit" && y.op == "strlit" {
		return b.False()
	}
	if x.op == "ite" && y.op == "int" && x.args[1].op == "int" && x.args[2].op == "int" {
		return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
	}
	if y.op == "ite" && x.op == "int" {
		return b.Eq(y, x)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk("=", SBool, x, y)
}

// distinct decides syntactic (dis)equality: 1 equal, -1 distinct, 0 unknown
func (b *TB) same(x, y *Term) int {
	e := b.Eq(x, y)
	if e.op == "true" {
		return 1
	}
	if e.op == "false" {
		return -1
	}
	return 0
}

func (b *TB) Select(a, i *Term) *Term {
	_, vs := arrParts(a.sort)
	for {
		switch a.op {
		case "store":
			switch b.same(a.args[1], i) {
			case 1:
				return a.args[2]
			case -1:
				a = a.args[0]
				continue
			}
		case "ite":
			x := b.Select(a.args[1], i)
			y := b.Select(a.args[2], i)
			return b.Ite(a.args[0], x, y)
		case "constarr":
			return a.args[0]
		}
		return b.mk("select", vs, a, i)
	}
}

func (b *TB) Store(a, i, v *Term) *Term {
	_, vs := arrParts(a.sort)
	if v.sort != vs {
		panic("store sort " + a.sort + " " + v.sort)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == "store" && b.same(a.args[1], i) == 1 {
		a = a.args[0]
	}
	return b.mk("store", a.sort, a, i, v)
}

func (b *TB) ConstArr(sort string, v *Term) *Term { return b.mk("constarr", sort, v) }

func (b *TB) Forall(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	return b.quant("forall", bvs, body, pats)
}
func (b *TB) Exists(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	return b.quant("exists", bvs, body, pats)
}
func (b *TB) quant(op string, bvs []*Term, body *Term, pats [][]*Term) *Term {
	if body.op == "true" || body.op == "false" {
		return body
	}
	var used []*Term
	for _, v := range bvs {
		if body.free[v.id] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	var ps [][]*Term
	for _, p := range pats {
		ok := len(p) > 0
		for _, v := range used {
			has := false
			for _, t := range p {
				if t.free[v.id] {
					has = true
				}
			}
			ok = ok && has
		}
		for _, t := range p {
			if badPattern(t) {
				ok = false
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	if len(pats) == 0 {
		ps = b.autoPats(used, body)
	}
	return b.intern(&Term{op: op, sort: SBool, args: []*Term{body}, bvs: used, pats: ps})
}

// autoPats: when every bound variable indexes a slice, trigger on the index terms.
func (b *TB) autoPats(bvs []*Term, body *Term) [][]*Term {
	if len(bvs) > 2 {
		return nil
	}
	var per [][]*Term
	for _, v := range bvs {
		var ix []*Term
		seen := map[*Term]bool{}
		var f func(t *Term)
		f = func(t *Term) {
			if seen[t] || !t.free[v.id] {
				return
			}
			seen[t] = true
			if t.op == "ix" && t.args[1] == v && !t.args[0].free[v.id] {
				if !badPattern(t) {
					for _, o := range bvs {
						if o != v && t.free[o.id] {
							return
						}
					}
					ix = append(ix, t)
				}
			}
			for _, a := range t.args {
				f(a)
			}
			for _, p := range t.pats {
				_ = p
			}
		}
		f(body)
		if len(ix) == 0 || len(ix) > 2 {
			return nil
		}
		per = append(per, ix)
	}
	var out [][]*Term
	if len(per) == 1 {
		for _, t := range per[0] {
			out = append(out, []*Term{t})
		}
		return out
	}
	for _, t := range per[0] {
		for _, u := range per[1] {
			out = append(out, []*Term{t, u})
		}
	}
	return out
}

// Subst replaces terms (by id) in t.
func (b *TB) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a)
			ch = ch || as[i] != a
		}
		var ps [][]*Term
		for _, p := range t.pats {
			var np []*Term
			for _, a := range p {
				na := f(a)
				ch = ch || na != a
				np = append(np, na)
			}
			ps = append(ps, np)
		}
		r := t
		if ch {
			r = b.rebuild(t, as, ps)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (b *TB) rebuild(t *Term, as []*Term, ps [][]*Term) *Term {
	switch t.op {
	case "not":
		return b.Not(as[0])
	case "and":
		return b.And(as...)
	case "or":
		return b.Or(as...)
	case "=>":
		return b.Imp(as[0], as[1])
	case "ite":
		return b.Ite(as[0], as[1], as[2])
	case "=":
		return b.Eq(as[0], as[1])
	case "<":
		return b.Lt(as[0], as[1])
	case "<=":
		return b.Le(as[0], as[1])
	case "+":
		return b.Add(as...)
	case "*":
		return b.Mul(as[0], as[1])
	case "mul":
		return b.Mul(as[0], as[1])
	case "select":
		return b.Select(as[0], as[1])
	case "store":
		return b.Store(as[0], as[1], as[2])
	case "forall", "exists":
		return b.quant(t.op, t.bvs, as[0], ps)
	}
	return b.intern(&Term{op: t.op, sort: t.sort, args: as, val: t.val, bvs: t.bvs, pats: ps, sym: t.sym})
}

// StrLit returns a string literal constant.
func (b *TB) StrLit(s string) *Term {
	if t := b.strs[s]; t != nil {
		return t
	}
	t := b.intern(&Term{op: "strlit", sort: SStr, args: []*Term{b.Int(int64(len(b.strOrd)))}})
	b.strs[s] = t
	b.strOrd = append(b.strOrd, s)
	return t
}

func (b *TB) litOf(t *Term) (string, bool) {
	if t.op == "strlit" {
		return b.strOrd[t.args[0].val.Int64()], true
	}
	return "", false
}

// ---- printing

func quoteSym(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("~!@$%^&*_-+=<>.?/", c)) {
			ok = false
		}
	}
	if ok {
		return s
	}
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(s) + "|"
}

type printer struct {
	b       *TB
	names   map[int]string
	native  bool
	usedSym map[string]bool
	usedLit map[int]bool
}

func (p *printer) expr(sb *strings.Builder, t *Term, top bool) {
	if !top {
		if n, ok := p.names[t.id]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.op {
	case "int":
		if t.val.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.val))
		} else {
			sb.WriteString(t.val.String())
		}
		return
	case "bv":
		sb.WriteString(t.args[0].op)
		return
	case "strlit":
		p.usedLit[int(t.args[0].val.Int64())] = true
		fmt.Fprintf(sb, "lit_%s", t.args[0].val)
		return
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", p.b.sortText(t.sort))
		p.expr(sb, t.args[0], false)
		sb.WriteByte(')')
		return
	case "forall", "exists":
		fmt.Fprintf(sb, "(%s (", t.op)
		for _, v := range t.bvs {
			fmt.Fprintf(sb, "(%s %s)", v.args[0].op, v.sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		p.expr(sb, t.args[0], false)
		if len(t.pats) > 0 {
			for _, pt := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range pt {
					if i > 0 {
						sb.WriteByte(' ')
					}
					p.expr(sb, x, false)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteByte(')')
		return
	}
	if len(t.args) == 0 {
		if t.sym {
			p.usedSym[t.op] = true
		}
		sb.WriteString(quoteSym(t.op))
		return
	}
	if _, ok := p.b.funs[t.op]; ok {
		p.usedSym[t.op] = true
	}
	sb.WriteByte('(')
	sb.WriteString(quoteSym(t.op))
	for _, a := range t.args {
		sb.WriteByte(' ')
		p.expr(sb, a, false)
	}
	sb.WriteByte(')')
}

func (b *TB) sortText(s string) string { return s }

// Show prints a term (debugging, bounded).
func (b *TB) Show(t *Term) string {
	p := &printer{b: b, names: map[int]string{}, usedSym: map[string]bool{}, usedLit: map[int]bool{}}
	var sb strings.Builder
	p.expr(&sb, t, false)
	s := sb.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

// Query renders a complete SMT-LIB script asserting all of the given terms.
func (b *TB) Query(asserts []*Term, interpretMul bool) string {
	// refcounts over the DAG
	ref := map[int]int{}
	var topo []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		ref[t.id]++
		if ref[t.id] > 1 {
			return
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, ps := range t.pats {
			for _, a := range ps {
				visit(a)
			}
		}
		topo = append(topo, t)
	}
	for _, a := range asserts {
		visit(a)
	}
	p := &printer{b: b, names: map[int]string{}, usedSym: map[string]bool{}, usedLit: map[int]bool{}}
	var body strings.Builder
	for _, t := range topo {
		if ref[t.id] > 1 && t.free == nil && len(t.args) > 0 && t.op != "strlit" && t.op != "bv" && t.sort != "name" {
			n := fmt.Sprintf("$%d", t.id)
			fmt.Fprintf(&body, "(define-fun %s () %s ", n, b.sortText(t.sort))
			p.expr(&body, t, true)
			body.WriteString(")\n")
			p.names[t.id] = n
		}
	}
	for _, a := range asserts {
		body.WriteString("(assert ")
		p.expr(&body, a, false)
		body.WriteString(")\n")
	}
	// make index terms known to the solver that would otherwise occur only below quantifiers
	nseen := 0
	for _, t := range topo {
		if t.op == "store" && t.args[1].op == "ix" && t.args[1].free == nil {
			body.WriteString("(assert ($seen ")
			p.expr(&body, t.args[1], false)
			body.WriteString("))\n")
			nseen++
		}
	}
	var out strings.Builder
	out.WriteString("(set-logic ALL)\n(declare-sort Str 0)\n(declare-sort GSeq 0)\n")
	if nseen > 0 {
		out.WriteString("(declare-fun $seen (Int) Bool)\n")
	}
	need := map[string]bool{}
	for _, f := range preludeFuns {
		if p.usedSym[f.name] || (len(p.usedLit) > 0 && (f.name == "slen" || f.name == "sat")) {
			need[f.name] = true
			for _, d := range f.deps {
				need[d] = true
			}
		}
	}
	for _, f := range preludeFuns {
		if !need[f.name] {
			continue
		}
		if f.name == "mul" && interpretMul {
			out.WriteString("(define-fun mul ((x Int) (y Int)) Int (* x y))\n")
			continue
		}
		fmt.Fprintf(&out, "(declare-fun %s %s)\n", f.name, f.sig)
	}
	for _, s := range b.order {
		if !p.usedSym[s] || preludeByName[s] != nil {
			continue
		}
		if so, ok := b.decls[s]; ok {
			fmt.Fprintf(&out, "(declare-fun %s () %s)\n", quoteSym(s), so)
		} else {
			fmt.Fprintf(&out, "(declare-fun %s %s)\n", quoteSym(s), b.funs[s])
		}
	}
	for _, f := range preludeFuns {
		if need[f.name] && !(f.name == "mul" && interpretMul) {
			out.WriteString(f.ax)
		}
	}
	var lits []int
	for l := range p.usedLit {
		lits = append(lits, l)
	}
	sort.Ints(lits)
	for _, l := range lits {
		fmt.Fprintf(&out, "(declare-fun lit_%d () Str)\n", l)
	}
	if len(lits) > 1 {
		out.WriteString("(assert (distinct")
		for _, l := range lits {
			fmt.Fprintf(&out, " lit_%d", l)
		}
		out.WriteString("))\n")
	}
	for _, l := range lits {
		fmt.Fprintf(&out, "(assert (= (slen lit_%d) %d))\n", l, len(b.strOrd[l]))
		if b.strOrd[l] == "" {
			fmt.Fprintf(&out, "(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s lit_%d)) :pattern ((slen s)))))\n", l)
			if p.usedSym["sconcat"] {
				fmt.Fprintf(&out, "(assert (forall ((s Str)) (! (= (sconcat s lit_%d) s) :pattern ((sconcat s lit_%d)))))\n(assert (forall ((s Str)) (! (= (sconcat lit_%d s) s) :pattern ((sconcat lit_%d s)))))\n", l, l, l, l)
			}
		}
		for i, c := range []byte(b.strOrd[l]) {
			if i > 7 {
				break
			}
			fmt.Fprintf(&out, "(assert (= (sat lit_%d %d) %d))\n", l, i, c)
		}
	}
	if p.usedSym["contains"] {
		for _, l := range lits {
			for _, m := range lits {
				if len(b.strOrd[m]) == 1 && len(b.strOrd[l]) > 1 && len(b.strOrd[l]) <= 32 {
					if strings.Contains(b.strOrd[l], b.strOrd[m]) {
						fmt.Fprintf(&out, "(assert (contains lit_%d lit_%d))\n", l, m)
					} else {
						fmt.Fprintf(&out, "(assert (not (contains lit_%d lit_%d)))\n", l, m)
					}
				}
			}
		}
	}
	out.WriteString(body.String())
	out.WriteString("(check-sat)\n")
	return out.String()
}

type preludeFun struct {
	name, sig, ax string
	deps          []string
}

var preludeByName = map[string]*preludeFun{}

func init() {
	for _, f := range preludeFuns {
		preludeByName[f.name] = f
	}
}

var preludeFuns = []*preludeFun{
	{"slen", "(Str) Int", "(assert (forall ((s Str)) (! (<= 0 (slen s)) :pattern ((slen s)))))\n", nil},
	{"ix", "(Int Int) Int", "(assert (forall ((o Int) (j Int)) (! (= (ix o j) (+ o j)) :pattern ((ix o j)))))\n", nil},
	{"sat", "(Str Int) Int", "(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))\n", nil},
	{"sconcat", "(Str Str) Str", "(assert (forall ((a Str) (b Str)) (! (= (slen (sconcat a b)) (+ (slen a) (slen b))) :pattern ((sconcat a b)))))\n" +
		"(assert (forall ((a Str) (b Str) (i Int)) (! (= (sat (sconcat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a))))) :pattern ((sat (sconcat a b) i)))))\n" +
		"(assert (forall ((a Str) (b Str) (c Str)) (! (= (sconcat (sconcat a b) c) (sconcat a (sconcat b c))) :pattern ((sconcat (sconcat a b) c)))))\n", []string{"slen", "sat"}},
	{"ssub", "(Str Int Int) Str", "(assert (forall ((s Str) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s))) (= (slen (ssub s l h)) (- h l))) :pattern ((ssub s l h)))))\n" +
		"(assert (forall ((s Str) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (slen s)) (<= 0 i) (< i (- h l))) (= (sat (ssub s l h) i) (sat s (+ l i)))) :pattern ((sat (ssub s l h) i)))))\n", []string{"slen", "sat"}},
	{"slt", "(Str Str) Bool", "(assert (forall ((a Str) (b Str)) (! (and (not (and (slt a b) (slt b a))) (or (= a b) (slt a b) (slt b a))) :pattern ((slt a b)))))\n" +
		"(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (slt a b) (slt b c)) (slt a c)) :pattern ((slt a b) (slt b c)))))\n", nil},
	{"mul", "(Int Int) Int", "(assert (forall ((a Int) (b Int)) (! (= (mul a b) (mul b a)) :pattern ((mul a b)))))\n" +
		"(assert (forall ((a Int) (b Int)) (! (and (=> (= a 0) (= (mul a b) 0)) (=> (= b 0) (= (mul a b) 0)) (=> (= a 1) (= (mul a b) b)) (=> (= b 1) (= (mul a b) a)) (=> (= a (- 1)) (= (mul a b) (- b))) (=> (and (> a 0) (> b 0)) (and (>= (mul a b) a) (>= (mul a b) b))) (=> (and (> a 0) (< b 0)) (< (mul a b) 0)) (=> (and (< a 0) (> b 0)) (< (mul a b) 0)) (=> (and (< a 0) (< b 0)) (> (mul a b) 0))) :pattern ((mul a b)))))\n", nil},
	{"tquo", "(Int Int) Int", "(assert (forall ((a Int) (b Int)) (! (=> (not (= b 0)) (let ((r (- a (mul b (tquo a b))))) (and (=> (>= a 0) (and (<= 0 r) (< r (ite (< b 0) (- b) b)))) (=> (<= a 0) (and (<= r 0) (< (- (ite (< b 0) (- b) b)) r)))))) :pattern ((tquo a b)))))\n" +
		"(assert (forall ((a Int)) (! (= (tquo a 1) a) :pattern ((tquo a 1)))))\n", []string{"mul"}},
	{"fdiv", "(Int Int) Int", "(assert (forall ((a Int) (b Int)) (! (=> (not (= b 0)) (let ((r (- a (mul b (fdiv a b))))) (and (<= 0 r) (< r (ite (< b 0) (- b) b))))) :pattern ((fdiv a b)))))\n", []string{"mul"}},
	{"bytes2str", "((Array Int Int) Int Int) Str", "(assert (forall ((a (Array Int Int)) (o Int) (l Int)) (! (=> (<= 0 l) (= (slen (bytes2str a o l)) l)) :pattern ((bytes2str a o l)))))\n" +
		"(assert (forall ((a (Array Int Int)) (o Int) (l Int) (i Int)) (! (=> (and (<= 0 i) (< i l) (<= 0 (select a (ix o i)) 255)) (= (sat (bytes2str a o l) i) (select a (ix o i)))) :pattern ((sat (bytes2str a o l) i)))))\n", []string{"slen", "sat", "ix"}},
	{"str2bytes", "(Str) (Array Int Int)", "(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (= (select (str2bytes s) i) (sat s i))) :pattern ((select (str2bytes s) i)))))\n", []string{"slen", "sat"}},
	{"$askedI", "(Int) Bool", "", nil},
	{"$askedS", "(Str) Bool", "", nil},
}

// badPattern: solvers reject patterns with connectives.
func badPattern(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists":
		return true
	}
	for _, a := range t.args {
		if badPattern(a) {
			return true
		}
	}
	return false
}
