package main

// Semantics of library functions that take closures or need more than a declarative contract.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type libCall struct {
	name string
	fn   *ssa.Function
	args []*Value
	site string
	pos  token.Pos
}

var libHandlers map[string]func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool)

func init() {
	libHandlers = map[string]func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool){
		"sort.Search":      sortSearch,
		"sort.Find":        sortFind,
		"sort.Slice":       func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) { return sortSlice(x, fr, st, c, false) },
		"sort.SliceStable": func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) { return sortSlice(x, fr, st, c, true) },
		"sort.Stable":      func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) { return sortIface(x, fr, st, c, true) },
		"sort.Sort":        func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) { return sortIface(x, fr, st, c, false) },
		"sort.Strings":     sortStrings,
	}
}

// evalClosure runs a closure that must not change the state, under an extra condition, and returns its result.
func (x *Exec) evalClosure(fr *Frame, st *State, f *Value, cond *Term, args []*Value, c *libCall, tag string, quiet bool) *Value {
	s := st.clone()
	s.cond = x.b.And(st.cond, cond)
	h := s.clone()
	if quiet {
		x.dry++
		defer func() { x.dry-- }()
	}
	sig := f.T.Underlying().(*types.Signature)
	v, ok := x.callValue(fr, s, f, args, c.site+tag, c.pos, sig)
	if !ok {
		bail("callback of %s does not return", c.name)
	}
	for _, n := range sortedKeys(s.comps) {
		o := h.comps[n]
		if o == nil {
			o = x.entry[n]
		}
		if o != s.comps[n] && n != "$alloc" {
			bail("callback of %s changes the state (%s)", c.name, n)
		}
	}
	for id, o := range h.cells {
		if nv := s.cells[id]; nv != nil && !sameValue(o, nv) {
			bail("callback of %s changes a captured variable", c.name)
		}
	}
	return v
}

func intV(t *Term) *Value { return one(tInt, t) }

func sortSearch(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	b := x.b
	n, f := c.args[0].L[0], c.args[1]
	in := func(t *Term) *Term { return b.And(b.Le(b.Int(0), t), b.Lt(t, n)) }
	h := b.Fresh("h", SInt)
	x.evalClosure(fr, st, f, in(h), []*Value{intV(h)}, c, "h", false)
	i := b.Fresh("search", SInt)
	x.assume(st, b.And(b.Le(b.Int(0), i), b.Or(b.Le(i, n), b.And(b.Lt(n, b.Int(0)), b.Eq(i, b.Int(0))))))
	v := x.evalClosure(fr, st, f, in(i), []*Value{intV(i)}, c, "i", true)
	x.assume(st, b.Imp(in(i), v.L[0]))
	j := b.Sub(i, b.Int(1))
	w := x.evalClosure(fr, st, f, in(j), []*Value{intV(j)}, c, "j", true)
	x.assume(st, b.Imp(in(j), b.Not(w.L[0])))
	return intV(i), true
}

func sortFind(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	b := x.b
	n, f := c.args[0].L[0], c.args[1]
	in := func(t *Term) *Term { return b.And(b.Le(b.Int(0), t), b.Lt(t, n)) }
	h := b.Fresh("h", SInt)
	x.evalClosure(fr, st, f, in(h), []*Value{intV(h)}, c, "h", false)
	i := b.Fresh("find", SInt)
	found := b.Fresh("found", SBool)
	x.assume(st, b.And(b.Le(b.Int(0), i), b.Or(b.Le(i, n), b.And(b.Lt(n, b.Int(0)), b.Eq(i, b.Int(0))))))
	v := x.evalClosure(fr, st, f, in(i), []*Value{intV(i)}, c, "i", true)
	x.assume(st, b.Imp(in(i), b.And(b.Le(v.L[0], b.Int(0)), b.Eq(found, b.Eq(v.L[0], b.Int(0))))))
	x.assume(st, b.Imp(b.Not(in(i)), b.Not(found)))
	j := b.Sub(i, b.Int(1))
	w := x.evalClosure(fr, st, f, in(j), []*Value{intV(j)}, c, "j", true)
	x.assume(st, b.Imp(in(j), b.Lt(b.Int(0), w.L[0])))
	return &Value{T: c.fn.Signature.Results(), X: &Tuple{[]*Value{intV(i), one(tBool, found)}}}, true
}

// permute replaces the elements of slice s by a permutation of them; returns the witness functions.
func (x *Exec) permute(st *State, s *Value) (perm, inv func(*Term) *Term) {
	b := x.b
	et := s.T.Underlying().(*types.Slice).Elem()
	x.callN["perm"]++
	p := b.Fresh("perm", arr(SInt, SInt))
	q := b.Fresh("iperm", arr(SInt, SInt))
	perm = func(t *Term) *Term { return b.Select(p, t) }
	inv = func(t *Term) *Term { return b.Select(q, t) }
	n := s.L[2]
	i := b.BV("i", SInt)
	in := b.And(b.Le(b.Int(0), i), b.Lt(i, n))
	rng := func(t *Term) *Term { return b.And(b.Le(b.Int(0), t), b.Lt(t, n)) }
	x.assume(st, b.Forall([]*Term{i}, b.Imp(in, b.And(rng(perm(i)), b.Eq(inv(perm(i)), i))), []*Term{perm(i)}))
	x.assume(st, b.Forall([]*Term{i}, b.Imp(in, b.And(rng(inv(i)), b.Eq(perm(inv(i)), i))), []*Term{inv(i)}))
	for _, lf := range leaves(et) {
		nm := elemBase(et) + lf.suf
		x.note(nm, compInfo{leaf: lf, elem: true})
		cc := x.comp(st, nm, arr(SInt, arr(SInt, lf.sort)))
		old := b.Select(cc, s.L[0])
		nw := b.Fresh("sorted", arr(SInt, lf.sort))
		k := b.BV("k", SInt)
		ki := x.at(s.L[1], k)
		x.assume(st, b.Forall([]*Term{k}, b.Imp(b.And(b.Le(b.Int(0), k), b.Lt(k, n)), b.Eq(b.Select(nw, ki), b.Select(old, x.at(s.L[1], perm(k))))), []*Term{b.Select(nw, ki)}))
		x.assume(st, b.Forall([]*Term{k}, b.Imp(b.Or(b.Lt(k, s.L[1]), b.Le(b.Add(s.L[1], n), k)), b.Eq(b.Select(nw, k), b.Select(old, k))), []*Term{b.Select(nw, k)}))
		// every old element appears at its inverse position
		x.assume(st, b.Forall([]*Term{k}, b.Imp(b.And(b.Le(b.Int(0), k), b.Lt(k, n)),
			b.Eq(b.Select(old, ki), b.Select(nw, x.at(s.L[1], inv(k))))), []*Term{b.Select(old, ki)}))
		// equal to cc when nothing is sorted; not a store: the equalities are needed by matching
		m := b.Fresh(nm, arr(SInt, arr(SInt, lf.sort)))
		r := b.BV("r", SInt)
		x.assume(st, b.Eq(b.Select(m, s.L[0]), nw))
		x.assume(st, b.Forall([]*Term{r}, b.Imp(b.Not(b.Eq(r, s.L[0])), b.Eq(b.Select(m, r), b.Select(cc, r))), []*Term{b.Select(m, r)}))
		st.comps[nm] = m
	}
	return
}

func (x *Exec) swo(st *State, n *Term, less func(i, j *Term, quiet bool) *Term, c *libCall) {
	b := x.b
	i, j, k := b.Fresh("i", SInt), b.Fresh("j", SInt), b.Fresh("k", SInt)
	in := func(t *Term) *Term { return b.And(b.Le(b.Int(0), t), b.Lt(t, n)) }
	lij, ljk, lik, lji, lkj, lki := less(i, j, false), less(j, k, true), less(i, k, true), less(j, i, true), less(k, j, true), less(k, i, true)
	x.oblige(st, "order", "comparison is a strict weak order", c.pos, b.Imp(b.And(in(i), in(j), in(k)), b.And(
		b.Not(b.And(lij, lji)),
		b.Imp(b.And(lij, ljk), lik),
		b.Imp(b.And(b.Not(lij), b.Not(lji), b.Not(ljk), b.Not(lkj)), b.And(b.Not(lik), b.Not(lki))))))
}

func (x *Exec) sortedFacts(st *State, n *Term, less func(i, j *Term, quiet bool) *Term, s *Value, inv, perm func(*Term) *Term, stable bool) {
	b := x.b
	i0, j0 := b.Fresh("si", SInt), b.Fresh("sj", SInt)
	mark := b.n
	symsBefore := len(b.order)
	lt := less(j0, i0, true)
	if hasNewSyms(b, lt, symsBefore, mark, i0, j0) {
		return // cannot generalise; sortedness is not assumed
	}
	i, j := b.BV("i", SInt), b.BV("j", SInt)
	body := b.Subst(lt, map[*Term]*Term{i0: i, j0: j})
	var pat []*Term
	et := s.T.Underlying().(*types.Slice).Elem()
	nm := elemBase(et) + leaves(et)[0].suf
	cont := b.Select(x.comp(st, nm, arr(SInt, arr(SInt, leaves(et)[0].sort))), s.L[0])
	pat = []*Term{b.Select(cont, x.at(s.L[1], i)), b.Select(cont, x.at(s.L[1], j))}
	sorted := b.Imp(b.And(b.Le(b.Int(0), i), b.Lt(i, j), b.Lt(j, n)), b.Not(body))
	if occurs(body, pat[0]) && occurs(body, pat[1]) {
		x.assume(st, b.Forall([]*Term{i, j}, sorted, pat))
	} else {
		x.assume(st, b.Forall([]*Term{i, j}, sorted))
	}
	if stable {
		x.assume(st, b.Forall([]*Term{i, j}, b.Imp(b.And(b.Le(b.Int(0), i), b.Lt(i, j), b.Lt(j, n), b.Not(b.Subst(lt, map[*Term]*Term{i0: j, j0: i}))), b.Lt(perm(i), perm(j))), []*Term{perm(i), perm(j)}))
	}
}

// occurs: t contains the term u.
func occurs(t, u *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == u {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func hasNewSyms(b *TB, t *Term, before, mark int, allow ...*Term) bool {
	newSym := map[string]bool{}
	for _, s := range b.order[before:] {
		newSym[s] = true
	}
	bad := false
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.sym && newSym[t.op] {
			ok := false
			for _, a := range allow {
				if a == t {
					ok = true
				}
			}
			if len(t.op) > 2 && t.op[len(t.op)-2:] == "@0" { // entry component, shared
				ok = true
			}
			if !ok {
				bad = true
			}
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return bad
}

func sortSlice(x *Exec, fr *Frame, st *State, c *libCall, stable bool) (*Value, bool) {
	bx, ok := c.args[0].X.(*Boxed)
	if !ok {
		bail("%s of an unknown slice", c.name)
	}
	s := bx.v
	x.sortWith(fr, st, c, s, stable, func(st *State, i, j *Term, quiet bool) *Term {
		b := x.b
		in := func(t *Term) *Term { return b.And(b.Le(b.Int(0), t), b.Lt(t, s.L[2])) }
		return x.evalClosure(fr, st, c.args[1], b.And(in(i), in(j)), []*Value{intV(i), intV(j)}, c, "l", quiet).L[0]
	})
	return unitValue(), true
}

func (x *Exec) sortWith(fr *Frame, st *State, c *libCall, s *Value, stable bool, less func(st *State, i, j *Term, quiet bool) *Term) {
	pre := st.clone()
	x.swo(st, s.L[2], func(i, j *Term, q bool) *Term { return less(pre, i, j, q) }, c)
	b := x.b
	var already *Term
	{
		i0, j0 := b.Fresh("si", SInt), b.Fresh("sj", SInt)
		mark, syms := b.n, len(b.order)
		lt := less(pre, j0, i0, true)
		if stable && !hasNewSyms(b, lt, syms, mark, i0, j0) {
			i, j := b.BV("i", SInt), b.BV("j", SInt)
			already = b.Forall([]*Term{i, j}, b.Imp(b.And(b.Le(b.Int(0), i), b.Lt(i, j), b.Lt(j, s.L[2])), b.Not(b.Subst(lt, map[*Term]*Term{i0: i, j0: j}))))
		}
	}
	perm, inv := x.permute(st, s)
	if already != nil { // a stable sort leaves a sorted slice alone
		et := s.T.Underlying().(*types.Slice).Elem()
		for _, lf := range leaves(et) {
			nm := elemBase(et) + lf.suf
			as := arr(SInt, arr(SInt, lf.sort))
			x.assume(st, b.Imp(already, b.Eq(b.Select(x.comp(st, nm, as), s.L[0]), b.Select(x.comp(pre, nm, as), s.L[0]))))
		}
	}
	x.sortedFacts(st, s.L[2], func(i, j *Term, q bool) *Term { return less(st, i, j, q) }, s, inv, perm, stable)
}

func sortStrings(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	s := c.args[0]
	b := x.b
	x.permute(st, s)
	i, j := b.BV("i", SInt), b.BV("j", SInt)
	et := s.T.Underlying().(*types.Slice).Elem()
	p := x.load(st, x.elemLoc(et, s.L[0], x.at(s.L[1], i))).L[0]
	q := x.load(st, x.elemLoc(et, s.L[0], x.at(s.L[1], j))).L[0]
	x.assume(st, b.Forall([]*Term{i, j}, b.Imp(b.And(b.Le(b.Int(0), i), b.Lt(i, j), b.Lt(j, s.L[2])), b.Or(b.Eq(p, q), x.ordLess(p, q))), []*Term{p, q}))
	return unitValue(), true
}

func sortIface(x *Exec, fr *Frame, st *State, c *libCall, stable bool) (*Value, bool) {
	bx, ok := c.args[0].X.(*Boxed)
	if !ok {
		bail("%s of an unknown collection", c.name)
	}
	s := bx.v
	if _, ok := s.T.Underlying().(*types.Slice); !ok {
		bail("%s of %s", c.name, s.T)
	}
	lessFn := x.w.prog.LookupMethod(s.T, typePkg(s.T), "Less")
	lenFn := x.w.prog.LookupMethod(s.T, typePkg(s.T), "Len")
	swapFn := x.w.prog.LookupMethod(s.T, typePkg(s.T), "Swap")
	if lessFn == nil || lenFn == nil || swapFn == nil {
		bail("%s: methods of %s", c.name, s.T)
	}
	b := x.b
	// Len must be the slice length and Swap must exchange two elements
	ls := st.clone()
	lv, ok := x.callFn(fr, ls, lenFn, []*Value{s}, nil, c.site+"len", c.pos)
	if !ok {
		bail("Len does not return")
	}
	x.oblige(st, "order", "Len is the length", c.pos, b.Eq(lv.L[0], s.L[2]))
	in := func(t *Term) *Term { return b.And(b.Le(b.Int(0), t), b.Lt(t, s.L[2])) }
	{
		i, j, k := b.Fresh("i", SInt), b.Fresh("j", SInt), b.Fresh("k", SInt)
		ss := st.clone()
		ss.cond = b.And(ss.cond, in(i), in(j), in(k))
		if _, ok := x.callFn(fr, ss, swapFn, []*Value{s, intV(i), intV(j)}, nil, c.site+"swap", c.pos); !ok {
			bail("Swap does not return")
		}
		et := s.T.Underlying().(*types.Slice).Elem()
		nv := x.load(ss, x.elemLoc(et, s.L[0], x.at(s.L[1], k)))
		src := b.Ite(b.Eq(k, i), j, b.Ite(b.Eq(k, j), i, k))
		ov := x.load(st, x.elemLoc(et, s.L[0], x.at(s.L[1], src)))
		x.oblige(ss, "order", "Swap exchanges two elements", c.pos, x.valuesEqual(nv, ov))
	}
	x.sortWith(fr, st, c, s, stable, func(st *State, i, j *Term, quiet bool) *Term {
		f := &Value{T: lessFn.Signature, X: &Closure{fn: lessFn}}
		return x.evalClosure(fr, st, f, b.And(in(i), in(j)), []*Value{s, intV(i), intV(j)}, c, "l", quiet).L[0]
	})
	return unitValue(), true
}
