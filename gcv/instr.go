package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// instr executes one instruction; false means the path ended.
func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) bool {
	b := x.b
	switch in := in.(type) {
	case *ssa.Alloc:
		t := derefType(in.Type())
		switch x.w.allocKind(in) {
		case "cell":
			id := x.cellID(fr, in)
			st.cells[id] = x.zeroCell(t)
			fr.regs[in] = &Value{T: in.Type(), X: &Loc{kind: "cell", cell: id, typ: t}}
		case "array":
			at := t.Underlying().(*types.Array)
			ref := x.newRef(st)
			for _, lf := range leaves(at.Elem()) {
				n := elemBase(at.Elem()) + lf.suf
				x.note(n, compInfo{leaf: lf, elem: true})
				c := x.comp(st, n, arr(SInt, arr(SInt, lf.sort)))
				st.comps[n] = b.Store(c, ref, b.ConstArr(arr(SInt, lf.sort), x.zeroLeaf(lf)))
			}
			fr.regs[in] = &Value{T: in.Type(), L: []*Term{ref}}
		default:
			ref := x.newRef(st)
			x.store(st, x.refLoc(t, ref), x.zero(t))
			fr.regs[in] = &Value{T: in.Type(), L: []*Term{ref}}
		}
	case *ssa.Store:
		p := x.val(fr, st, in.Addr)
		v := x.val(fr, st, in.Val)
		l := x.ptrLoc(st, p, in.Pos())
		x.store(st, l, v)
	case *ssa.UnOp:
		fr.regs[in] = x.unop(fr, st, in)
	case *ssa.BinOp:
		fr.regs[in] = x.binop(st, in.Op, x.val(fr, st, in.X), x.val(fr, st, in.Y), in.Type(), in.Pos())
	case *ssa.Call:
		v, ok := x.call(fr, st, &in.Call, in, in.Pos())
		if !ok {
			return false
		}
		fr.regs[in] = v
	case *ssa.ChangeType:
		v := *x.val(fr, st, in.X)
		v.T = in.Type()
		fr.regs[in] = &v
	case *ssa.ChangeInterface:
		v := *x.val(fr, st, in.X)
		v.T = in.Type()
		fr.regs[in] = &v
	case *ssa.Convert:
		fr.regs[in] = x.convert(st, x.val(fr, st, in.X), in.Type())
	case *ssa.MultiConvert:
		fr.regs[in] = x.convert(st, x.val(fr, st, in.X), in.Type())
	case *ssa.Extract:
		tu := x.val(fr, st, in.Tuple).X.(*Tuple)
		fr.regs[in] = tu.vs[in.Index]
	case *ssa.Field:
		v := x.val(fr, st, in.X)
		off, n := fieldRange(v.T, in.Field)
		ft := v.T.Underlying().(*types.Struct).Field(in.Field).Type()
		r := &Value{T: ft, L: v.L[off : off+n]}
		x.attachClosure(r)
		fr.regs[in] = r
	case *ssa.FieldAddr:
		p := x.val(fr, st, in.X)
		l := x.ptrLoc(st, p, in.Pos())
		fl := x.fieldLoc(l, in.Field)
		fr.regs[in] = &Value{T: in.Type(), X: fl}
	case *ssa.Index:
		v := x.val(fr, st, in.X)
		i := x.val(fr, st, in.Index).L[0]
		if v.L[0].sort == SStr {
			x.oblige(st, "bounds", "string index", in.Pos(), b.And(b.Le(b.Int(0), i), b.Lt(i, x.slen(v.L[0]))))
			fr.regs[in] = &Value{T: in.Type(), L: []*Term{x.sat(v.L[0], i)}}
			break
		}
		bail("array value index")
	case *ssa.IndexAddr:
		p := x.val(fr, st, in.X)
		i := x.val(fr, st, in.Index).L[0]
		switch u := p.T.Underlying().(type) {
		case *types.Slice:
			x.oblige(st, "bounds", "index in range", in.Pos(), b.And(b.Le(b.Int(0), i), b.Lt(i, p.L[2])))
			fr.regs[in] = &Value{T: in.Type(), X: x.elemLoc(u.Elem(), p.L[0], x.at(p.L[1], i))}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.oblige(st, "bounds", "index in range", in.Pos(), b.And(b.Le(b.Int(0), i), b.Lt(i, b.Int(at.Len()))))
			if l, ok := p.X.(*Loc); ok {
				if i.op != "int" {
					bail("array indexed by a variable")
				}
				n := len(leaves(at.Elem()))
				k := int(i.val.Int64())
				if l.kind != "cell" {
					bail("array field")
				}
				fr.regs[in] = &Value{T: in.Type(), X: &Loc{kind: "cell", cell: l.cell, off: l.off + n*k, typ: at.Elem()}}
			} else {
				fr.regs[in] = &Value{T: in.Type(), X: x.elemLoc(at.Elem(), p.L[0], x.at(b.Int(0), i))}
			}
		default:
			bail("IndexAddr %s", p.T)
		}
	case *ssa.Lookup:
		fr.regs[in] = x.lookup(fr, st, in)
	case *ssa.MakeClosure:
		var bs []*Value
		for _, bv := range in.Bindings {
			bs = append(bs, x.val(fr, st, bv))
		}
		fr.regs[in] = &Value{T: in.Type(), X: &Closure{in.Fn.(*ssa.Function), bs}}
	case *ssa.MakeInterface:
		fr.regs[in] = x.makeIface(st, x.val(fr, st, in.X), in.Type())
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		ref := x.newRef(st)
		d, _, l := x.mapComps(mt)
		ks := x.keySort(mt)
		dc := x.comp(st, d, arr(SInt, arr(ks, SBool)))
		st.comps[d] = b.Store(dc, ref, b.ConstArr(arr(ks, SBool), b.False()))
		lc := x.comp(st, l, arr(SInt, SInt))
		st.comps[l] = b.Store(lc, ref, b.Int(0))
		fr.regs[in] = &Value{T: in.Type(), L: []*Term{ref}}
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		n := x.val(fr, st, in.Len).L[0]
		c := x.val(fr, st, in.Cap).L[0]
		x.oblige(st, "bounds", "make length", in.Pos(), b.And(b.Le(b.Int(0), n), b.Le(n, c)))
		ref := x.newRef(st)
		for _, lf := range leaves(et) {
			nm := elemBase(et) + lf.suf
			x.note(nm, compInfo{leaf: lf, elem: true})
			cc := x.comp(st, nm, arr(SInt, arr(SInt, lf.sort)))
			st.comps[nm] = b.Store(cc, ref, b.ConstArr(arr(SInt, lf.sort), x.zeroLeaf(lf)))
		}
		fr.regs[in] = &Value{T: in.Type(), L: []*Term{ref, b.Int(0), n, c}}
	case *ssa.MapUpdate:
		m := x.val(fr, st, in.Map)
		x.mapUpdate(st, m, x.val(fr, st, in.Key), x.val(fr, st, in.Value), in.Pos())
	case *ssa.Range:
		m := x.val(fr, st, in.X)
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			bail("range over string")
		}
		key := fmt.Sprintf("%s@%p", fr.path, in)
		id := x.w.iterID(x, key)
		d, _, _ := x.mapComps(mt)
		ks := x.keySort(mt)
		dom := x.domOf(st, d, ks, m.L[0])
		it := &MapIter{id: id, m: m, mt: mt, dom: dom}
		st.comps[visName(it)] = b.ConstArr(arr(ks, SBool), b.False())
		fr.regs[in] = &Value{T: in.Type(), X: it}
	case *ssa.Next:
		it, ok := x.val(fr, st, in.Iter).X.(*MapIter)
		if !ok {
			bail("range over string")
		}
		fr.regs[in] = x.next(st, in, it)
	case *ssa.Slice:
		fr.regs[in] = x.slice(fr, st, in)
	case *ssa.TypeAssert:
		fr.regs[in] = x.typeAssert(fr, st, in)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			if _, ok := x.call(fr, st, &d.Call, nil, d.Pos()); !ok {
				return false
			}
		}
	case *ssa.Defer:
		// only defers executed unconditionally at function top level are modelled
		if in.Block() != fr.fn.Blocks[0] {
			bail("conditional defer")
		}
		fr.defers = append(fr.defers, in)
	default:
		bail("instruction %T in %s", in, fr.fn)
	}
	return true
}

func visName(it *MapIter) string { return fmt.Sprintf("%s%d", visPrefix, it.id) }

func (x *Exec) zeroCell(t types.Type) *Value {
	return x.zero(t)
}

func (x *Exec) cellID(fr *Frame, in *ssa.Alloc) int {
	if id, ok := fr.cellOf[in]; ok {
		return id
	}
	id := x.w.cellID(x, fmt.Sprintf("%s@%p", fr.path, in), in.Comment)
	fr.cellOf[in] = id
	return id
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) *Value {
	b := x.b
	v := x.val(fr, st, in.X)
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok && g.Name() == "init$guard" {
			return &Value{T: in.Type(), L: []*Term{b.False()}}
		}
		l := x.ptrLoc(st, v, in.Pos())
		r := x.loadWF(st, l)
		if g, ok := in.X.(*ssa.Global); ok {
			x.globalFacts(st, g, r)
		}
		return r
	case token.NOT:
		return &Value{T: in.Type(), L: []*Term{b.Not(v.L[0])}}
	case token.SUB:
		if v.L[0].sort == SReal {
			return &Value{T: in.Type(), L: []*Term{b.mk("-", SReal, v.L[0])}}
		}
		return &Value{T: in.Type(), L: []*Term{b.Neg(v.L[0])}}
	}
	bail("unary %s", in.Op)
	return nil
}

// globalFacts: package-level function variables initialised once to a known function are constants.
func (x *Exec) globalFacts(st *State, g *ssa.Global, v *Value) {
	if _, ok := v.T.Underlying().(*types.Signature); ok {
		if f := x.w.constFunc(g); f != nil {
			v.X = x.w.closureOf(f)
		}
	}
}

func (x *Exec) slen(s *Term) *Term {
	if l, ok := x.b.litOf(s); ok {
		return x.b.Int(int64(len(l)))
	}
	if s.op == "ite" {
		return x.b.Ite(s.args[0], x.slen(s.args[1]), x.slen(s.args[2]))
	}
	if s.op == "sconcat" {
		return x.b.Add(x.slen(s.args[0]), x.slen(s.args[1]))
	}
	return x.b.Fun("slen", SInt, s)
}

func (x *Exec) sat(s, i *Term) *Term { return x.b.Fun("sat", SInt, s, i) }

func (x *Exec) sconcat(a, c *Term) *Term {
	la, ok1 := x.b.litOf(a)
	lc, ok2 := x.b.litOf(c)
	if ok1 && la == "" {
		return c
	}
	if ok2 && lc == "" {
		return a
	}
	if ok1 && ok2 {
		return x.b.StrLit(la + lc)
	}
	// right associate
	if a.op == "sconcat" {
		return x.sconcat(a.args[0], x.sconcat(a.args[1], c))
	}
	return x.b.Fun("sconcat", SStr, a, c)
}

func (x *Exec) valuesEqual(p, q *Value) *Term {
	b := x.b
	if p.L == nil {
		x.materialize(p)
	}
	if q.L == nil {
		x.materialize(q)
	}
	if _, ok := p.T.Underlying().(*types.Slice); ok { // only comparable with nil
		if len(q.L) == 4 {
			if q.L[0].op == "int" {
				return b.Eq(p.L[0], b.Int(0))
			}
			return b.Eq(q.L[0], b.Int(0))
		}
		return b.Eq(p.L[0], b.Int(0))
	}
	if len(q.L) == 4 && len(p.L) == 1 {
		return b.Eq(q.L[0], b.Int(0))
	}
	if len(p.L) != len(q.L) {
		// interface against nil
		if len(p.L) == 2 {
			return b.Eq(p.L[0], b.Int(0))
		}
		if len(q.L) == 2 {
			return b.Eq(q.L[0], b.Int(0))
		}
		bail("comparison of %s and %s", p.T, q.T)
	}
	if len(p.L) == 2 {
		_, i1 := p.T.Underlying().(*types.Interface)
		if i1 {
			if q.L[0].op == "int" && q.L[0].val.Sign() == 0 {
				return b.Eq(p.L[0], b.Int(0))
			}
			if p.L[0].op == "int" && p.L[0].val.Sign() == 0 {
				return b.Eq(q.L[0], b.Int(0))
			}
		}
	}
	var cs []*Term
	for i := range p.L {
		cs = append(cs, b.Eq(p.L[i], q.L[i]))
	}
	return b.And(cs...)
}

func (x *Exec) binop(st *State, op token.Token, p, q *Value, t types.Type, pos token.Pos) *Value {
	b := x.b
	one := func(r *Term) *Value { return &Value{T: t, L: []*Term{r}} }
	switch op {
	case token.EQL:
		return one(x.valuesEqual(p, q))
	case token.NEQ:
		return one(b.Not(x.valuesEqual(p, q)))
	}
	a, c := p.L[0], q.L[0]
	if a.sort == SStr {
		switch op {
		case token.ADD:
			return one(x.sconcat(a, c))
		case token.LSS:
			return one(x.slt(a, c))
		case token.GTR:
			return one(x.slt(c, a))
		case token.LEQ:
			return one(b.Not(x.slt(c, a)))
		case token.GEQ:
			return one(b.Not(x.slt(a, c)))
		}
	}
	switch op {
	case token.ADD:
		return one(x.ovf(st, b.Add(a, c), t, pos))
	case token.SUB:
		return one(x.ovf(st, b.Sub(a, c), t, pos))
	case token.MUL:
		return one(x.ovf(st, b.Mul(a, c), t, pos))
	case token.QUO:
		if a.sort == SReal {
			return one(b.mk("/", SReal, a, c))
		}
		x.oblige(st, "div", "division by zero", pos, b.Not(b.Eq(c, b.Int(0))))
		return one(x.tquo(a, c))
	case token.REM:
		x.oblige(st, "div", "division by zero", pos, b.Not(b.Eq(c, b.Int(0))))
		return one(b.Sub(a, b.Mul(c, x.tquo(a, c))))
	case token.LSS:
		return one(b.Lt(a, c))
	case token.LEQ:
		return one(b.Le(a, c))
	case token.GTR:
		return one(b.Lt(c, a))
	case token.GEQ:
		return one(b.Le(c, a))
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if a.op == "int" && c.op == "int" {
			r := b.Int(0)
			av, cv := a.val.Int64(), c.val.Int64()
			switch op {
			case token.AND:
				r = b.Int(av & cv)
			case token.OR:
				r = b.Int(av | cv)
			case token.SHL:
				r = b.Int(av << uint(cv))
			case token.SHR:
				r = b.Int(av >> uint(cv))
			}
			return one(r)
		}
		if op == token.SHL && c.op == "int" {
			return one(x.ovf(st, b.Mul(a, b.Int(1<<uint(c.val.Int64()))), t, pos))
		}
		return one(b.Fun("bit"+op.String(), SInt, a, c))
	}
	bail("binary %s on %s", op, p.T)
	return nil
}

// ovf: machine arithmetic is treated as mathematical unless the contract opts into overflow obligations.
func (x *Exec) ovf(st *State, r *Term, t types.Type, pos token.Pos) *Term {
	if x.con == nil || !x.con.opt("overflow") {
		return r
	}
	bt, ok := t.Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 || r.sort != SInt {
		return r
	}
	b := x.b
	lim := new(big0).exp2(63)
	if bt.Kind() == types.Int32 {
		lim = new(big0).exp2(31)
	}
	if bt.Info()&types.IsUnsigned != 0 {
		return r
	}
	x.oblige(st, "overflow", "signed overflow", pos, b.And(b.Le(b.Neg(b.BigInt(lim)), r), b.Lt(r, b.BigInt(lim))))
	return r
}

func (x *Exec) slt(a, c *Term) *Term {
	return x.b.Fun("slt", SBool, a, c)
}

func (x *Exec) tquo(a, c *Term) *Term {
	return x.b.Fun("tquo", SInt, a, c)
}

func (x *Exec) convert(st *State, v *Value, t types.Type) *Value {
	b := x.b
	fl, tl := leaves(v.T), leaves(t)
	if len(fl) == 1 && len(tl) == 1 && fl[0].sort == tl[0].sort {
		if fl[0].sort == SInt {
			fb, ok1 := v.T.Underlying().(*types.Basic)
			tb, ok2 := t.Underlying().(*types.Basic)
			if ok1 && ok2 && narrower(tb, fb) {
				if v.L[0].op == "int" {
					return &Value{T: t, L: v.L}
				}
				// treated as value preserving only when it is proved to fit
				lo, hi := intRange(tb)
				x.oblige(st, "overflow", "narrowing conversion", token.NoPos, b.And(b.Le(lo(b), v.L[0]), b.Le(v.L[0], hi(b))))
			}
		}
		return &Value{T: t, L: v.L}
	}
	if tl[0].sort == SStr && len(fl) == 4 { // []byte -> string
		return &Value{T: t, L: []*Term{b.Fun("bytes2str", SStr, x.bytesContent(st, v), v.L[1], v.L[2])}}
	}
	if len(tl) == 4 && fl[0].sort == SStr { // string -> []byte
		ref := x.newRef(st)
		et := t.Underlying().(*types.Slice).Elem()
		lf := leaves(et)[0]
		n := elemBase(et)
		x.note(n, compInfo{leaf: lf, elem: true})
		c := x.comp(st, n, arr(SInt, arr(SInt, SInt)))
		k := b.Fun("str2bytes", arr(SInt, SInt), v.L[0])
		st.comps[n] = b.Store(c, ref, k)
		ln := x.slen(v.L[0])
		x.assume(st, b.Eq(b.Fun("bytes2str", SStr, k, b.Int(0), ln), v.L[0]))
		cp := b.Fresh("cap", SInt)
		x.assume(st, b.Le(ln, cp))
		return &Value{T: t, L: []*Term{ref, b.Int(0), ln, cp}}
	}
	if tl[0].sort == SReal && fl[0].sort == SInt {
		return &Value{T: t, L: []*Term{b.mk("to_real", SReal, v.L[0])}}
	}
	if tl[0].sort == SInt && fl[0].sort == SReal {
		return &Value{T: t, L: []*Term{b.Fun("real2int", SInt, v.L[0])}}
	}
	if tl[0].sort == SStr && fl[0].sort == SInt {
		return &Value{T: t, L: []*Term{b.Fun("rune2str", SStr, v.L[0])}}
	}
	bail("conversion %s to %s", v.T, t)
	return nil
}

func (x *Exec) bytesContent(st *State, v *Value) *Term {
	et := v.T.Underlying().(*types.Slice).Elem()
	n := elemBase(et)
	x.note(n, compInfo{leaf: leaves(et)[0], elem: true})
	return x.b.Select(x.comp(st, n, arr(SInt, arr(SInt, SInt))), v.L[0])
}

func bits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}
func narrower(to, from *types.Basic) bool {
	if to.Info()&types.IsInteger == 0 || from.Info()&types.IsInteger == 0 {
		return false
	}
	return bits(to) < bits(from) || (to.Info()&types.IsUnsigned != 0) != (from.Info()&types.IsUnsigned != 0) && !(from.Info()&types.IsUnsigned != 0 && bits(to) > bits(from))
}
func intRange(t *types.Basic) (func(*TB) *Term, func(*TB) *Term) {
	n := bits(t)
	if t.Info()&types.IsUnsigned != 0 {
		return func(b *TB) *Term { return b.Int(0) }, func(b *TB) *Term { return b.Sub(b.BigInt(new(big0).exp2(n)), b.Int(1)) }
	}
	return func(b *TB) *Term { return b.Neg(b.BigInt(new(big0).exp2(n - 1))) }, func(b *TB) *Term { return b.Sub(b.BigInt(new(big0).exp2(n-1)), b.Int(1)) }
}

// ---- interfaces

func (x *Exec) typeID(t types.Type) *Term {
	k := typeName(t)
	id, ok := x.typeIDs[k]
	if !ok {
		id = len(x.typeIDs) + 1
		x.typeIDs[k] = id
		x.typeByID[id] = t
	}
	return x.b.Int(int64(id))
}

func (x *Exec) makeIface(st *State, v *Value, t types.Type) *Value {
	if v.L == nil {
		if _, ok := v.X.(*Loc); ok {
			// address boxed in an interface: opaque unless a plain ref
			l := v.X.(*Loc)
			if !(l.kind == "heap" && (l.base == "F|"+structKey(l.typ)+"|" || l.base == "P|"+typeName(l.typ)+"|")) {
				return &Value{T: t, L: []*Term{x.typeID(v.T), x.b.Fresh("boxaddr", SInt)}}
			}
			return &Value{T: t, L: []*Term{x.typeID(v.T), l.ref}}
		}
		x.materialize(v)
	}
	tag := x.typeID(v.T)
	ls := leaves(v.T)
	if len(ls) == 1 && (ls[0].kind == 'r') {
		return &Value{T: t, L: []*Term{tag, v.L[0]}}
	}
	return &Value{T: t, L: []*Term{tag, x.box(v)}, X: &Boxed{v}}
}

func (x *Exec) box(v *Value) *Term {
	name := "box_" + typeName(v.T)
	t := x.b.Fun(name, SInt, v.L...)
	for i, l := range v.L {
		x.fact(x.b.Eq(x.b.Fun(fmt.Sprintf("un%s_%d", name, i), l.sort, t), l))
	}
	return t
}

func (x *Exec) unbox(t types.Type, val *Term) *Value {
	ls := leaves(t)
	v := &Value{T: t}
	if len(ls) == 1 && ls[0].kind == 'r' {
		v.L = []*Term{val}
		return v
	}
	name := "box_" + typeName(t)
	if val.op == name && len(val.args) == len(ls) {
		v.L = append(v.L, val.args...)
		return v
	}
	for i, l := range ls {
		v.L = append(v.L, x.b.Fun(fmt.Sprintf("un%s_%d", name, i), l.sort, val))
	}
	return v
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) *Value {
	b := x.b
	v := x.val(fr, st, in.X)
	var ok *Term
	var res *Value
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		ok = b.And(b.Not(b.Eq(v.L[0], b.Int(0))), b.Fun("impl|"+typeName(in.AssertedType), SBool, v.L[0]))
		res = &Value{T: in.AssertedType, L: v.L}
	} else {
		ok = b.Eq(v.L[0], x.typeID(in.AssertedType))
		res = x.unbox(in.AssertedType, v.L[1])
	}
	if !in.CommaOk {
		x.oblige(st, "assert", "type assertion", in.Pos(), ok)
		return res
	}
	z := x.zero(in.AssertedType)
	out := &Value{T: in.AssertedType}
	for i := range res.L {
		out.L = append(out.L, b.Ite(ok, res.L[i], z.L[i]))
	}
	return &Value{T: in.Type(), X: &Tuple{[]*Value{out, {T: types.Typ[types.Bool], L: []*Term{ok}}}}}
}

// ---- maps

func (x *Exec) keySort(mt *types.Map) string {
	ls := leaves(mt.Key())
	if len(ls) != 1 {
		bail("map key %s", mt.Key())
	}
	return ls[0].sort
}

func (x *Exec) mapComps(mt *types.Map) (dom string, vals []string, ln string) {
	base := typeName(mt.Key()) + "|" + typeName(mt.Elem())
	ks := x.keySort(mt)
	for _, lf := range leaves(mt.Elem()) {
		n := "MV|" + base + lf.suf
		x.note(n, compInfo{leaf: lf, mapv: true, ksort: ks})
		vals = append(vals, n)
	}
	x.note("MD|"+base, compInfo{leaf: Leaf{sort: SBool, kind: 'b'}, mapv: true, ksort: ks, key: leaves(mt.Key())[0]})
	x.note("ML|"+base, compInfo{leaf: Leaf{sort: SInt, kind: 'l', typ: types.Typ[types.Int]}})
	return "MD|" + base, vals, "ML|" + base
}

func (x *Exec) domOf(st *State, d, ks string, m *Term) *Term {
	return x.b.Ite(x.b.Eq(m, x.b.Int(0)), x.b.ConstArr(arr(ks, SBool), x.b.False()), x.b.Select(x.comp(st, d, arr(SInt, arr(ks, SBool))), m))
}

func (x *Exec) mapHas(st *State, m *Value, k *Term) *Term {
	mt := m.T.Underlying().(*types.Map)
	d, _, _ := x.mapComps(mt)
	b := x.b
	ks := x.keySort(mt)
	return b.And(b.Not(b.Eq(m.L[0], b.Int(0))), b.Select(b.Select(x.comp(st, d, arr(SInt, arr(ks, SBool))), m.L[0]), k))
}

func (x *Exec) mapGet(st *State, m *Value, k *Term) *Value {
	mt := m.T.Underlying().(*types.Map)
	_, vs, _ := x.mapComps(mt)
	ks := x.keySort(mt)
	v := &Value{T: mt.Elem()}
	for i, lf := range leaves(mt.Elem()) {
		v.L = append(v.L, x.b.Select(x.b.Select(x.comp(st, vs[i], arr(SInt, arr(ks, lf.sort))), m.L[0]), k))
	}
	return v
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) *Value {
	b := x.b
	m := x.val(fr, st, in.X)
	kv := x.val(fr, st, in.Index)
	if m.L != nil && len(m.L) == 1 && m.L[0].sort == SStr {
		i := kv.L[0]
		x.oblige(st, "bounds", "string index", in.Pos(), b.And(b.Le(b.Int(0), i), b.Lt(i, x.slen(m.L[0]))))
		return &Value{T: in.Type(), L: []*Term{x.sat(m.L[0], i)}}
	}
	k := kv.L[0]
	has := x.mapHas(st, m, k)
	raw := x.mapGet(st, m, k)
	z := x.zero(raw.T)
	v := &Value{T: raw.T}
	for i := range raw.L {
		v.L = append(v.L, b.Ite(has, raw.L[i], z.L[i]))
	}
	for i, lf := range leaves(v.T) {
		if lf.kind == 'a' {
			x.assume(st, x.wfSlice(v.L[i:i+4]))
		}
	}
	if in.CommaOk {
		return &Value{T: in.Type(), X: &Tuple{[]*Value{v, {T: types.Typ[types.Bool], L: []*Term{has}}}}}
	}
	return v
}

func (x *Exec) mapUpdate(st *State, m, k, v *Value, pos token.Pos) {
	b := x.b
	mt := m.T.Underlying().(*types.Map)
	d, vs, l := x.mapComps(mt)
	ks := x.keySort(mt)
	x.oblige(st, "nil", "assignment to nil map", pos, b.Not(b.Eq(m.L[0], b.Int(0))))
	x.materialize(v)
	dc := x.comp(st, d, arr(SInt, arr(ks, SBool)))
	had := b.Select(b.Select(dc, m.L[0]), k.L[0])
	lc := x.comp(st, l, arr(SInt, SInt))
	st.comps[l] = b.Store(lc, m.L[0], b.Add(b.Select(lc, m.L[0]), b.Ite(had, b.Int(0), b.Int(1))))
	st.comps[d] = b.Store(dc, m.L[0], b.Store(b.Select(dc, m.L[0]), k.L[0], b.True()))
	for i, lf := range leaves(mt.Elem()) {
		c := x.comp(st, vs[i], arr(SInt, arr(ks, lf.sort)))
		st.comps[vs[i]] = b.Store(c, m.L[0], b.Store(b.Select(c, m.L[0]), k.L[0], v.L[i]))
	}
}

func (x *Exec) mapDelete(st *State, m, k *Value) {
	b := x.b
	mt := m.T.Underlying().(*types.Map)
	d, _, l := x.mapComps(mt)
	ks := x.keySort(mt)
	dc := x.comp(st, d, arr(SInt, arr(ks, SBool)))
	nz := b.Not(b.Eq(m.L[0], b.Int(0)))
	had := b.And(nz, b.Select(b.Select(dc, m.L[0]), k.L[0]))
	lc := x.comp(st, l, arr(SInt, SInt))
	st.comps[l] = b.Store(lc, m.L[0], b.Sub(b.Select(lc, m.L[0]), b.Ite(had, b.Int(1), b.Int(0))))
	st.comps[d] = b.Store(dc, m.L[0], b.Store(b.Select(dc, m.L[0]), k.L[0], b.False()))
}

// mapLen with the facts relating length to the domain.
func (x *Exec) mapLen(st *State, m *Value) *Term {
	b := x.b
	mt := m.T.Underlying().(*types.Map)
	d, _, l := x.mapComps(mt)
	ks := x.keySort(mt)
	n := b.Ite(b.Eq(m.L[0], b.Int(0)), b.Int(0), b.Select(x.comp(st, l, arr(SInt, SInt)), m.L[0]))
	dom := x.domOf(st, d, ks, m.L[0])
	x.assume(st, b.Le(b.Int(0), n))
	k := b.BV("k", ks)
	k2 := b.BV("k", ks)
	sel := b.Select(dom, k)
	x.assume(st, b.Imp(b.Eq(n, b.Int(0)), b.Forall([]*Term{k}, b.Not(sel))))
	w := b.Fresh("mapw", ks)
	w2 := b.Fresh("mapw", ks)
	x.assume(st, b.Imp(b.Lt(b.Int(0), n), b.Select(dom, w)))
	x.assume(st, b.Imp(b.Lt(b.Int(1), n), b.And(b.Select(dom, w), b.Select(dom, w2), b.Not(b.Eq(w, w2)))))
	x.assume(st, b.Imp(b.Eq(n, b.Int(1)), b.Forall([]*Term{k, k2}, b.Imp(b.And(sel, b.Select(dom, k2)), b.Eq(k, k2)))))
	return n
}

func (x *Exec) next(st *State, in *ssa.Next, it *MapIter) *Value {
	b := x.b
	d, vs, _ := x.mapComps(it.mt)
	ks := x.keySort(it.mt)
	vis := x.comp(st, visName(it), arr(ks, SBool))
	dom := x.domOf(st, d, ks, it.m.L[0])
	ok := b.Fresh("ok", SBool)
	k := b.Fresh("key", ks)
	x.assume(st, b.Imp(ok, b.And(b.Select(dom, k), b.Not(b.Select(vis, k)))))
	q := b.BV("k", ks)
	x.assume(st, b.Imp(b.Not(ok), b.Forall([]*Term{q}, b.Imp(b.And(b.Select(dom, q), b.Select(it.dom, q)), b.Select(vis, q)), []*Term{b.Select(b.Select(x.comp(st, d, arr(SInt, arr(ks, SBool))), it.m.L[0]), q)}, []*Term{b.Select(vis, q)})))
	st.comps[visName(it)] = x.choose(ok, b.Store(vis, k, b.True()), vis)
	kv := &Value{T: it.mt.Key(), L: []*Term{k}}
	x.assume(st, x.wfValue(kv, x.alloc(st)))
	vv := &Value{T: it.mt.Elem()}
	for i, lf := range leaves(it.mt.Elem()) {
		vv.L = append(vv.L, b.Select(b.Select(x.comp(st, vs[i], arr(SInt, arr(ks, lf.sort))), it.m.L[0]), k))
	}
	for i, lf := range leaves(vv.T) {
		if lf.kind == 'a' {
			x.assume(st, x.wfSlice(vv.L[i:i+4]))
		}
	}
	return &Value{T: in.Type(), X: &Tuple{[]*Value{{T: types.Typ[types.Bool], L: []*Term{ok}}, kv, vv}}}
}

// ---- slices

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) *Value {
	b := x.b
	v := x.val(fr, st, in.X)
	lo := b.Int(0)
	if in.Low != nil {
		lo = x.val(fr, st, in.Low).L[0]
	}
	if v.L != nil && len(v.L) == 1 && v.L[0].sort == SStr {
		s := v.L[0]
		hi := x.slen(s)
		if in.High != nil {
			hi = x.val(fr, st, in.High).L[0]
		}
		x.oblige(st, "bounds", "string slice", in.Pos(), b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, x.slen(s))))
		return &Value{T: in.Type(), L: []*Term{x.ssub(s, lo, hi)}}
	}
	var a, off, ln, cp *Term
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		a, off, ln, cp = v.L[0], v.L[1], v.L[2], v.L[3]
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if v.L == nil {
			bail("slice of a local array")
		}
		a, off, ln, cp = v.L[0], b.Int(0), b.Int(at.Len()), b.Int(at.Len())
	default:
		bail("slice of %s", v.T)
	}
	hi := ln
	if in.High != nil {
		hi = x.val(fr, st, in.High).L[0]
	}
	mx := cp
	if in.Max != nil {
		mx = x.val(fr, st, in.Max).L[0]
		x.oblige(st, "bounds", "slice max", in.Pos(), b.And(b.Le(hi, mx), b.Le(mx, cp)))
	}
	x.oblige(st, "bounds", "slice bounds", in.Pos(), b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, mx)))
	return &Value{T: in.Type(), L: []*Term{a, x.sliceOff(off, lo), b.Sub(hi, lo), b.Sub(mx, lo)}}
}

// at is the absolute index of element i of a slice whose first element is at off.
func (x *Exec) at(off, i *Term) *Term {
	b := x.b
	base, d := x.offset(off)
	if d != nil {
		i = b.Add(d, i)
	}
	return b.Fun("ix", SInt, base, i)
}

// offset splits the offset of a slice into that of the slice it was cut from and the index there (nil for 0).
func (x *Exec) offset(off *Term) (base, d *Term) {
	b := x.b
	switch off.op {
	case "ix":
		return off.args[0], off.args[1]
	case "ite":
		a1, d1 := x.offset(off.args[1])
		a2, d2 := x.offset(off.args[2])
		if a1 == a2 {
			if d1 == nil {
				d1 = b.Int(0)
			}
			if d2 == nil {
				d2 = b.Int(0)
			}
			return a1, b.Ite(off.args[0], d1, d2)
		}
	}
	return off, nil
}

func (x *Exec) sliceOff(off, lo *Term) *Term {
	if lo.op == "int" && lo.val.Sign() == 0 {
		return off
	}
	return x.at(off, lo)
}

func (x *Exec) ssub(s, lo, hi *Term) *Term {
	b := x.b
	if b.same(lo, b.Int(0)) == 1 && b.same(hi, x.slen(s)) == 1 {
		return s
	}
	return b.Fun("ssub", SStr, s, lo, hi)
}

func (x *Exec) appendSlice(st *State, s, t *Value) *Value {
	b := x.b
	et := s.T.Underlying().(*types.Slice).Elem()
	if len(t.L) == 1 { // append([]byte, string...)
		bail("append of string")
	}
	n := b.Add(s.L[2], t.L[2])
	fits := b.Le(n, s.L[3])
	ref := x.newRef(st)
	ra := x.named(fits, s.L[0], ref)
	for _, lf := range leaves(et) {
		nm := elemBase(et) + lf.suf
		x.note(nm, compInfo{leaf: lf, elem: true})
		c := x.comp(st, nm, arr(SInt, arr(SInt, lf.sort)))
		src := b.Select(c, s.L[0])
		tsrc := b.Select(c, t.L[0])
		var content *Term
		if t.L[2].op == "int" && t.L[2].val.Int64() <= 8 {
			content = src
			for j := int64(0); j < t.L[2].val.Int64(); j++ {
				content = b.Store(content, x.at(s.L[1], b.Add(s.L[2], b.Int(j))), b.Select(tsrc, x.at(t.L[1], b.Int(j))))
			}
		} else {
			content = b.Fresh("app", arr(SInt, lf.sort))
			i := b.BV("i", SInt)
			si := x.at(s.L[1], i)
			x.assume(st, b.Forall([]*Term{i}, b.Imp(b.And(b.Le(b.Int(0), i), b.Lt(i, n)), b.Eq(b.Select(content, si),
				b.Ite(b.Le(s.L[2], i), b.Select(tsrc, x.at(t.L[1], b.Sub(i, s.L[2]))), b.Select(src, si)))), []*Term{b.Select(content, si)}))
			x.assume(st, b.Forall([]*Term{i}, b.Imp(b.Or(b.Lt(i, b.Add(s.L[1], s.L[2])), b.Le(b.Add(s.L[1], n), i)), b.Eq(b.Select(content, i), b.Select(src, i))), []*Term{b.Select(content, i)}))
		}
		st.comps[nm] = x.choose(b.And(fits, b.Eq(t.L[2], b.Int(0))), c, b.Store(c, ra, content))
	}
	cp := b.Fresh("cap", SInt)
	x.assume(st, b.Le(n, cp))
	return &Value{T: s.T, L: []*Term{ra, s.L[1], n, b.Ite(fits, s.L[3], cp)}}
}

func (x *Exec) copySlice(st *State, d, s *Value) *Term {
	b := x.b
	et := d.T.Underlying().(*types.Slice).Elem()
	if len(s.L) == 1 {
		bail("copy from string")
	}
	n := b.Ite(b.Lt(s.L[2], d.L[2]), s.L[2], d.L[2])
	for _, lf := range leaves(et) {
		nm := elemBase(et) + lf.suf
		x.note(nm, compInfo{leaf: lf, elem: true})
		c := x.comp(st, nm, arr(SInt, arr(SInt, lf.sort)))
		content := b.Fresh("cpy", arr(SInt, lf.sort))
		i := b.BV("i", SInt) // counts from where the underlying slice begins
		base, dd := x.offset(d.L[1])
		if dd == nil {
			dd = b.Int(0)
		}
		di := x.at(base, i)
		x.assume(st, b.Forall([]*Term{i}, b.Imp(b.And(b.Le(dd, i), b.Lt(i, b.Add(dd, n))), b.Eq(b.Select(content, di), b.Select(b.Select(c, s.L[0]), x.at(s.L[1], b.Sub(i, dd))))), []*Term{b.Select(content, di)}))
		x.assume(st, b.Forall([]*Term{i}, b.Imp(b.Or(b.Lt(i, d.L[1]), b.Le(b.Add(d.L[1], n), i)), b.Eq(b.Select(content, i), b.Select(b.Select(c, d.L[0]), i))), []*Term{b.Select(content, i)}))
		st.comps[nm] = x.choose(b.Lt(b.Int(0), n), b.Store(c, d.L[0], content), c)
	}
	return n
}
