package main

import "go/types"

// Functions of the packages slices and maps, as the language specifies them.

func init() {
	type H = func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool)
	for n, h := range map[string]H{
		"slices.Contains":       slicesContains,
		"slices.Index":          slicesIndex,
		"slices.ContainsFunc":   slicesIndexFunc,
		"slices.IndexFunc":      slicesIndexFunc,
		"slices.Insert":         slicesInsert,
		"slices.Delete":         slicesDelete,
		"slices.Clone":          slicesClone,
		"slices.Reverse":        slicesReverse,
		"slices.Sort":           slicesSort,
		"slices.SortFunc":       slicesSortFunc,
		"slices.SortStableFunc": slicesSortFunc,
		"maps.Keys":             mapsKeys,
		"maps.Copy":             mapsCopy,
		"slices.Collect":        slicesCollect,
		"slices.Sorted":         slicesCollect,
	} {
		libHandlers[n] = h
	}
}

func elemType(s *Value) types.Type { return s.T.Underlying().(*types.Slice).Elem() }

func (x *Exec) within(s *Value, i *Term) *Term {
	return x.b.And(x.b.Le(x.b.Int(0), i), x.b.Lt(i, s.L[2]))
}

func (x *Exec) elemAt(st *State, s *Value, i *Term) *Value {
	return x.load(st, x.elemLoc(elemType(s), s.L[0], x.at(s.L[1], i)))
}

// firstIndex is the place of the first element that is v, or -1.
func (x *Exec) firstIndex(st *State, s, v *Value, c *libCall) *Term {
	b := x.b
	if len(leaves(elemType(s))) != 1 {
		bail("%s of structures", c.name)
	}
	r := b.Fresh("index", SInt)
	x.assume(st, b.Or(b.Eq(r, b.Int(-1)), b.And(x.within(s, r), b.Eq(x.elemAt(st, s, r).L[0], v.L[0]))))
	i := b.BV("i", SInt)
	e := x.elemAt(st, s, i).L[0]
	x.assume(st, b.Forall([]*Term{i}, b.Imp(b.And(x.within(s, i), b.Or(b.Eq(r, b.Int(-1)), b.Lt(i, r))), b.Not(b.Eq(e, v.L[0]))), []*Term{e}))
	return r
}

func slicesIndex(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	return intV(x.firstIndex(st, c.args[0], c.args[1], c)), true
}

func slicesContains(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	r := x.firstIndex(st, c.args[0], c.args[1], c)
	return one(tBool, x.b.Le(x.b.Int(0), r)), true
}

func slicesIndexFunc(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	b := x.b
	s, f := c.args[0], c.args[1]
	r := b.Fresh("index", SInt)
	x.assume(st, b.Or(b.Eq(r, b.Int(-1)), x.within(s, r)))
	h := b.Fresh("h", SInt)
	x.evalClosure(fr, st, f, x.within(s, h), []*Value{x.elemAt(st, s, h)}, c, "h", false)
	v := x.evalClosure(fr, st, f, x.within(s, r), []*Value{x.elemAt(st, s, r)}, c, "r", true)
	x.assume(st, b.Imp(x.within(s, r), v.L[0]))
	i0 := b.Fresh("si", SInt)
	mark, syms := b.n, len(b.order)
	w := x.evalClosure(fr, st, f, x.within(s, i0), []*Value{x.elemAt(st, s, i0)}, c, "i", true).L[0]
	if !hasNewSyms(b, w, syms, mark, i0, i0) {
		i := b.BV("i", SInt)
		e := x.elemAt(st, s, i).L[0]
		x.assume(st, b.Forall([]*Term{i}, b.Imp(b.And(x.within(s, i), b.Or(b.Eq(r, b.Int(-1)), b.Lt(i, r))), b.Not(b.Subst(w, map[*Term]*Term{i0: i}))), []*Term{e}))
	}
	if c.name == "slices.ContainsFunc" {
		return one(tBool, b.Le(b.Int(0), r)), true
	}
	return intV(r), true
}

// part is s[lo:hi], with the capacity of s from lo on.
func (x *Exec) part(s *Value, lo, hi *Term) *Value {
	b := x.b
	return &Value{T: s.T, L: []*Term{s.L[0], x.sliceOff(s.L[1], lo), b.Sub(hi, lo), b.Sub(s.L[3], lo)}}
}

func (x *Exec) cloneSlice(st *State, s *Value) *Value {
	return x.appendSlice(st, &Value{T: s.T, L: []*Term{s.L[0], s.L[1], x.b.Int(0), x.b.Int(0)}}, s)
}

func slicesClone(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	return x.cloneSlice(st, c.args[0]), true
}

func slicesInsert(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	b := x.b
	s, i, vs := c.args[0], c.args[1].L[0], c.args[2]
	x.oblige(st, "bounds", "slices.Insert", c.pos, b.And(b.Le(b.Int(0), i), b.Le(i, s.L[2])))
	tail := x.appendSlice(st, x.cloneSlice(st, vs), x.part(s, i, s.L[2]))
	return x.appendSlice(st, x.part(s, b.Int(0), i), tail), true
}

func slicesDelete(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	b := x.b
	s, i, j := c.args[0], c.args[1].L[0], c.args[2].L[0]
	x.oblige(st, "bounds", "slices.Delete", c.pos, b.And(b.Le(b.Int(0), i), b.Le(i, j), b.Le(j, s.L[2])))
	r := x.appendSlice(st, x.part(s, b.Int(0), i), x.part(s, j, s.L[2]))
	// the elements after the new end become zero
	et := elemType(s)
	off := s.L[1]
	for _, lf := range leaves(et) {
		nm := elemBase(et) + lf.suf
		cc := x.comp(st, nm, arr(SInt, arr(SInt, lf.sort)))
		old := b.Select(cc, s.L[0])
		nw := b.Fresh("cleared", arr(SInt, lf.sort))
		k := b.BV("k", SInt)
		kept := b.Or(b.Lt(k, b.Add(off, r.L[2])), b.Le(b.Add(off, s.L[2]), k))
		x.assume(st, b.Forall([]*Term{k}, b.Imp(kept, b.Eq(b.Select(nw, k), b.Select(old, k))), []*Term{b.Select(nw, k)}))
		ki := x.at(off, k)
		x.assume(st, b.Forall([]*Term{k}, b.Imp(b.And(b.Le(b.Int(0), k), b.Lt(k, r.L[2])), b.Eq(b.Select(nw, ki), b.Select(old, ki))), []*Term{b.Select(nw, ki)}))
		st.comps[nm] = x.choose(b.Lt(i, j), b.Store(cc, s.L[0], nw), cc)
	}
	return r, true
}

func slicesReverse(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	b := x.b
	s := c.args[0]
	et := elemType(s)
	for _, lf := range leaves(et) {
		nm := elemBase(et) + lf.suf
		x.note(nm, compInfo{leaf: lf, elem: true})
		cc := x.comp(st, nm, arr(SInt, arr(SInt, lf.sort)))
		old := b.Select(cc, s.L[0])
		nw := b.Fresh("reversed", arr(SInt, lf.sort))
		k := b.BV("k", SInt)
		ki, kr := x.at(s.L[1], k), x.at(s.L[1], b.Sub(b.Sub(s.L[2], b.Int(1)), k))
		x.assume(st, b.Forall([]*Term{k}, b.Imp(x.within(s, k), b.Eq(b.Select(nw, ki), b.Select(old, kr))), []*Term{b.Select(nw, ki)}))
		x.assume(st, b.Forall([]*Term{k}, b.Imp(x.within(s, k), b.Eq(b.Select(old, ki), b.Select(nw, kr))), []*Term{b.Select(old, ki)}))
		x.assume(st, b.Forall([]*Term{k}, b.Imp(b.Or(b.Lt(k, s.L[1]), b.Le(b.Add(s.L[1], s.L[2]), k)), b.Eq(b.Select(nw, k), b.Select(old, k))), []*Term{b.Select(nw, k)}))
		st.comps[nm] = x.choose(b.Lt(b.Int(0), s.L[2]), b.Store(cc, s.L[0], nw), cc)
	}
	return unitValue(), true
}

func slicesSort(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	return sortStrings(x, fr, st, c)
}

func slicesSortFunc(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	s := c.args[0]
	x.sortWith(fr, st, c, s, c.name == "slices.SortStableFunc", func(st *State, i, j *Term, quiet bool) *Term {
		b := x.b
		v := x.evalClosure(fr, st, c.args[1], b.And(x.within(s, i), x.within(s, j)), []*Value{x.elemAt(st, s, i), x.elemAt(st, s, j)}, c, "l", quiet)
		return b.Lt(v.L[0], b.Int(0))
	})
	return unitValue(), true
}

// mapIter is the sequence of the keys of a map.
type mapIter struct{ m *Value }

func mapsKeys(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	r := x.b.Fresh("keys", SInt)
	x.assume(st, x.b.Not(x.b.Eq(r, x.b.Int(0))))
	return &Value{T: c.fn.Signature.Results().At(0).Type(), L: []*Term{r}, X: &mapIter{c.args[0]}}, true
}

func slicesCollect(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	b := x.b
	it, ok := c.args[0].X.(*mapIter)
	if !ok {
		bail("%s of an unknown sequence", c.name)
	}
	m := it.m
	mt := m.T.Underlying().(*types.Map)
	ks := x.keySort(mt)
	n := x.mapLen(st, m)
	s := &Value{T: c.fn.Signature.Results().At(0).Type(), L: []*Term{x.newRef(st), b.Int(0), n, n}}
	et := elemType(s)
	if len(leaves(et)) != 1 {
		bail("%s of structures", c.name)
	}
	lf := leaves(et)[0]
	nm := elemBase(et) + lf.suf
	x.note(nm, compInfo{leaf: lf, elem: true})
	cc := x.comp(st, nm, arr(SInt, arr(SInt, lf.sort)))
	nw := b.Fresh("keylist", arr(SInt, lf.sort))
	pos := b.Fresh("keyplace", arr(ks, SInt))
	i, k := b.BV("i", SInt), b.BV("k", ks)
	e := b.Select(nw, x.at(s.L[1], i))
	x.assume(st, b.Forall([]*Term{i}, b.Imp(x.within(s, i), b.And(x.mapHas(st, m, e), b.Eq(b.Select(pos, e), i))), []*Term{e}))
	has := x.mapHas(st, m, k)
	x.assume(st, b.Forall([]*Term{k}, b.Imp(has, b.And(x.within(s, b.Select(pos, k)), b.Eq(b.Select(nw, x.at(s.L[1], b.Select(pos, k))), k))), []*Term{b.Select(pos, k)}))
	st.comps[nm] = b.Store(cc, s.L[0], nw)
	if c.name == "slices.Sorted" {
		j := b.BV("j", SInt)
		p, q := x.elemAt(st, s, i).L[0], x.elemAt(st, s, j).L[0]
		x.assume(st, b.Forall([]*Term{i, j}, b.Imp(b.And(b.Le(b.Int(0), i), b.Lt(i, j), b.Lt(j, n)), x.ordLess(p, q)), []*Term{p, q}))
	}
	return s, true
}

// ordLess is < of strings or numbers.
func (x *Exec) ordLess(p, q *Term) *Term {
	if p.sort == SStr {
		return x.slt(p, q)
	}
	return x.b.Lt(p, q)
}

func mapsCopy(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
	b := x.b
	m, from := c.args[0], c.args[1]
	mt := m.T.Underlying().(*types.Map)
	d, vs, l := x.mapComps(mt)
	ks := x.keySort(mt)
	pre := st.clone()
	x.oblige(st, "nil", "assignment to nil map", c.pos, b.Or(b.Not(b.Eq(m.L[0], b.Int(0))), b.Eq(x.mapLen(st, from), b.Int(0))))
	k := b.BV("k", ks)
	has := x.mapHas(pre, from, k)
	dc := x.comp(st, d, arr(SInt, arr(ks, SBool)))
	nd := b.Fresh("copied", arr(ks, SBool))
	old := b.Select(dc, m.L[0])
	x.assume(st, b.Forall([]*Term{k}, b.Eq(b.Select(nd, k), b.Or(b.Select(old, k), has)), []*Term{b.Select(nd, k)}))
	fd := b.Select(b.Select(x.comp(pre, d, arr(SInt, arr(ks, SBool))), from.L[0]), k)
	x.assume(st, b.Forall([]*Term{k}, b.Imp(has, b.Select(nd, k)), []*Term{fd}))
	st.comps[d] = b.Store(dc, m.L[0], nd)
	for i, lf := range leaves(mt.Elem()) {
		vc := x.comp(st, vs[i], arr(SInt, arr(ks, lf.sort)))
		nv := b.Fresh("copied", arr(ks, lf.sort))
		x.assume(st, b.Forall([]*Term{k}, b.Eq(b.Select(nv, k), b.Ite(has, x.mapGet(pre, from, k).L[i], b.Select(b.Select(vc, m.L[0]), k))), []*Term{b.Select(nv, k)}))
		st.comps[vs[i]] = b.Store(vc, m.L[0], nv)
	}
	lc := x.comp(st, l, arr(SInt, SInt))
	n := b.Fresh("maplen", SInt)
	x.assume(st, b.Le(b.Select(lc, m.L[0]), n))
	st.comps[l] = b.Store(lc, m.L[0], n)
	return unitValue(), true
}
