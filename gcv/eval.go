package main

// Evaluation of specification expressions in symbolic states.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Env struct {
	x    *Exec
	st   *State
	lst  *State // where locals are read, if not st
	old  *State
	pre  *State
	itst *State // state at the start of the iteration
	fr   *Frame
	vars map[string]*Value
	k    *Term
	r    *Value
	iter *MapIter
	pkg  *types.Package
	head int // loop header index for local lookups
	bvs  []*Term
	ax   bool // axiom context: no state
	inv  bool // a loop invariant
}

func (e *Env) localSt() *State {
	if e.lst != nil {
		return e.lst
	}
	return e.st
}

func (e *Env) clone() *Env {
	n := *e
	n.vars = map[string]*Value{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

type specErr struct{ msg string }

func serr(e *Expr, format string, args ...any) {
	panic(specErr{e.Line + ": " + fmt.Sprintf(format, args...)})
}

var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
	tNil    = types.Typ[types.UntypedNil]
)

func ghostType(name string) types.Type {
	if t, ok := ghostTypes[name]; ok {
		return t
	}
	panic("no ghost type " + name)
}

var ghostTypes = map[string]types.Type{}

func init() {
	for _, n := range []string{"Seq", "Str", "Set", "Log", "Texts", "Flags", "Nums"} {
		ghostTypes[n] = types.NewNamed(types.NewTypeName(0, nil, "ghost."+n, nil), types.Typ[types.Int], nil)
	}
}

func ghostSort(n string) string {
	if n == "Texts" { // a text for each object
		return arr(SInt, SStr)
	}
	if n == "Set" || n == "Flags" {
		return arr(SInt, SBool)
	}
	if n == "Log" || n == "Nums" {
		return arr(SInt, SInt)
	}
	if n == "Seq" { // Seq is a built-in sort of z3
		return "GSeq"
	}
	return n
}

func (w *World) resolveType(s string, pkg *types.Package) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(w.resolveType(s[1:], pkg))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(w.resolveType(s[2:], pkg))
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 4; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				if d == 0 {
					return types.NewMap(w.resolveType(s[4:i], pkg), w.resolveType(s[i+1:], pkg))
				}
				d--
			}
		}
	}
	switch s {
	case "int":
		return tInt
	case "bool":
		return tBool
	case "string":
		return tString
	case "real":
		return types.Typ[types.Float64]
	case "error":
		return types.Universe.Lookup("error").Type()
	}
	if t, ok := ghostTypes[s]; ok {
		return t
	}
	i := strings.LastIndex(s, ".")
	if i < 0 {
		if pkg != nil {
			if o := pkg.Scope().Lookup(s); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
		panic(specErr{"unknown type " + s})
	}
	p := w.typesPkg(s[:i])
	if p != nil {
		if o, ok := p.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
			return o.Type()
		}
	}
	panic(specErr{"unknown type " + s})
}

func one(t types.Type, l *Term) *Value { return &Value{T: t, L: []*Term{l}} }

func (w *World) evalBool(env *Env, e *Expr) *Term {
	v := env.eval(e)
	if len(v.L) != 1 || v.L[0].sort != SBool {
		serr(e, "not a boolean expression")
	}
	return v.L[0]
}

func (env *Env) bool(e *Expr) *Term { return env.x.w.evalBool(env, e) }

func (env *Env) int(e *Expr) *Term {
	v := env.eval(e)
	if len(v.L) != 1 || v.L[0].sort != SInt {
		serr(e, "not an integer expression (%s)", v.T)
	}
	return v.L[0]
}

func (env *Env) rvalue(v *Value) *Value {
	return v
}

func (env *Env) eval(e *Expr) *Value {
	x := env.x
	b := x.b
	switch e.Op {
	case "int":
		n, _ := new(big.Int).SetString(e.Int, 10)
		return one(tInt, b.BigInt(n))
	case "str":
		return one(tString, b.StrLit(e.Name))
	case "bool":
		return one(tBool, b.Bool(e.Name == "true"))
	case "nil":
		return one(tNil, b.Int(0))
	case "ident":
		return env.ident(e)
	case "let":
		n := env.clone()
		n.vars[e.Name] = env.eval(e.Args[0])
		return n.eval(e.Args[1])
	case "ite":
		c := env.bool(e.Args[0])
		p, q := env.eval(e.Args[1]), env.eval(e.Args[2])
		p, q = env.unify(p, q)
		out := &Value{T: p.T}
		if len(p.L) != len(q.L) {
			serr(e, "branches differ")
		}
		for i := range p.L {
			out.L = append(out.L, b.Ite(c, p.L[i], q.L[i]))
		}
		return out
	case "forall", "exists":
		return env.quant(e)
	case "un":
		v := env.eval(e.Args[0])
		if e.Name == "!" {
			return one(tBool, b.Not(v.L[0]))
		}
		return one(v.T, b.Neg(v.L[0]))
	case "deref":
		p := env.eval(e.Args[0])
		return env.load(x.refLoc(derefType(p.T), p.L[0]))
	case "bin":
		return env.binary(e)
	case "field":
		return env.field(e)
	case "index":
		return env.index(e)
	case "call":
		return env.call(e)
	case "sum":
		lo, hi := env.int(e.Args[0]), env.int(e.Args[1])
		bv := b.BV("s", SInt)
		n := env.clone()
		n.vars[e.Name] = one(tInt, bv)
		body := n.int(e.Args[2])
		return one(tInt, x.sumTerm(bv, lo, hi, body, env.st))
	}
	serr(e, "cannot evaluate %s", e.Op)
	return nil
}

func (env *Env) load(l *Loc) *Value {
	if env.ax {
		panic(specErr{"state access in an axiom"})
	}
	return env.x.load(env.st, l)
}

func (env *Env) unify(p, q *Value) (*Value, *Value) {
	if p.T == tNil && q.T != tNil {
		return env.x.zero(q.T), q
	}
	if q.T == tNil && p.T != tNil {
		return p, env.x.zero(p.T)
	}
	return p, q
}

func (env *Env) ident(e *Expr) *Value {
	x := env.x
	if v, ok := env.vars[e.Name]; ok {
		return v
	}
	if e.Name == "$k" {
		if env.k == nil {
			serr(e, "$k outside a loop invariant")
		}
		return one(tInt, env.k)
	}
	if strings.HasPrefix(e.Name, "$k") { // $k1: the iteration of loop 1, around this one
		if n, err := strconv.Atoi(e.Name[2:]); err == nil && x.ks[x.con.inCode(n)] != nil {
			return one(tInt, x.ks[x.con.inCode(n)])
		}
	}
	if e.Name == "$r" || e.Name == "$range" { // the slice a loop runs over
		if env.r == nil {
			serr(e, "$r outside a range loop")
		}
		return env.r
	}
	if e.Name == "$out" {
		return one(tString, x.comp(env.st, "$out", SStr))
	}
	if env.fr != nil {
		if n, ok := x.con.Rename[e.Name]; ok && env.inv {
			if v := env.local(n); v != nil {
				return v
			}
		}
		if v := env.local(e.Name); v != nil {
			if env.inv && env.fr.parent != nil {
				x.named2[e.Name] = true
			}
			return v
		}
	}
	if p := x.captured[e.Name]; p != nil {
		return env.load(x.refLoc(derefType(p.T), p.L[0]))
	}
	if m := x.w.specs.Macros[e.Name]; m != nil && len(m.Params) == 0 {
		return env.macro(m, nil, e)
	}
	if v := env.global(env.pkg, e.Name); v != nil {
		return v
	}
	if strings.HasPrefix(e.Name, "$") {
		if s, ok := x.w.ghosts[e.Name]; ok {
			if s == SBool {
				return one(tBool, x.comp(env.st, e.Name, s))
			}
			return &Value{T: x.w.ghostTyp[e.Name], L: []*Term{x.comp(env.st, e.Name, s)}}
		}
	}
	serr(e, "unknown identifier %s", e.Name)
	return nil
}

func (env *Env) global(pkg *types.Package, name string) *Value {
	x := env.x
	if pkg == nil {
		return nil
	}
	switch o := pkg.Scope().Lookup(name).(type) {
	case *types.Const:
		switch o.Val().Kind() {
		case constant.Int:
			n, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
			return one(o.Type(), x.b.BigInt(n))
		case constant.String:
			return one(o.Type(), x.b.StrLit(constant.StringVal(o.Val())))
		case constant.Bool:
			return one(o.Type(), x.b.Bool(constant.BoolVal(o.Val())))
		}
	case *types.Var:
		sp := x.w.prog.Package(pkg)
		if sp == nil {
			return nil
		}
		if g, ok := sp.Members[name].(*ssa.Global); ok {
			return env.load(x.globalLoc(g))
		}
	case *types.Func:
		sp := x.w.prog.Package(pkg)
		if sp != nil {
			if f, ok := sp.Members[name].(*ssa.Function); ok {
				return &Value{T: f.Type(), X: x.w.closureOf(f)}
			}
		}
	}
	return nil
}

// local finds a Go local variable by name in the frame (or its callers).
func (env *Env) local(name string) *Value {
	x := env.x
	var frames []*Frame
	for fr := env.fr; fr != nil; fr = fr.parent {
		frames = append(frames, fr)
	}
	if env.inv && x.con.Outer {
		slices.Reverse(frames)
	}
	for _, fr := range frames {
		var best *ssa.Alloc
		bi := -1
		for _, blk := range fr.fn.Blocks {
			for _, in := range blk.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok || a.Comment != name {
					continue
				}
				if !env.live(fr, a) {
					continue
				}
				idx := fr.loops.index[blk]
				if fr == env.fr && env.head > 0 && idx > env.head && best != nil {
					continue
				}
				if idx >= bi {
					best, bi = a, idx
				}
			}
		}
		if best != nil {
			if id, ok := fr.cellOf[best]; ok && env.localSt().cells[id] != nil {
				v := *env.localSt().cells[id]
				v.T = derefType(best.Type())
				return &v
			}
			if r := fr.regs[best]; r != nil && r.L != nil {
				return x.load(env.localSt(), x.refLoc(derefType(best.Type()), r.L[0]))
			}
		}
		for i, fv := range fr.fn.FreeVars {
			if fv.Name() == name && i < len(fr.binds) {
				p := fr.binds[i]
				if l, ok := p.X.(*Loc); ok {
					return x.load(env.localSt(), l)
				}
				if p.L != nil {
					return x.load(env.localSt(), x.refLoc(derefType(p.T), p.L[0]))
				}
			}
		}
	}
	return nil
}

func (env *Env) live(fr *Frame, a *ssa.Alloc) bool {
	if id, ok := fr.cellOf[a]; ok && env.localSt().cells[id] != nil {
		return true
	}
	if r := fr.regs[a]; r != nil && r.L != nil {
		return true
	}
	return false
}

func (env *Env) macro(m *Macro, args []*Value, e *Expr) *Value {
	if len(args) != len(m.Params) {
		serr(e, "%s takes %d arguments", m.Name, len(m.Params))
	}
	n := env.clone()
	n.vars = map[string]*Value{}
	n.fr = nil
	for i, p := range m.Params {
		v := args[i]
		if v.T == tNil {
			v = env.x.zero(env.x.w.resolveType(p.Type, env.pkg))
		}
		n.vars[p.Name] = v
	}
	env.x.specDepth++
	if env.x.specDepth > 60 {
		serr(e, "recursive macro %s", m.Name)
	}
	r := n.eval(m.Body)
	env.x.specDepth--
	return r
}

func (env *Env) quant(e *Expr) *Value {
	x := env.x
	b := x.b
	n := env.clone()
	var bvs, guards []*Term
	for _, v := range e.Vars {
		t := x.w.resolveType(v.Type, env.pkg)
		ls := leaves(t)
		val := &Value{T: t}
		for _, l := range ls {
			bv := b.BV(v.Name, l.sort)
			bvs = append(bvs, bv)
			val.L = append(val.L, bv)
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			guards = append(guards, b.Lt(b.Int(0), val.L[0]))
			if !env.ax {
				guards = append(guards, b.Lt(val.L[0], x.alloc(env.st)))
			}
		}
		n.vars[v.Name] = val
	}
	body := n.bool(e.Args[0])
	var pats [][]*Term
	for _, tr := range e.Trig {
		var ps []*Term
		for _, p := range tr {
			t := n.eval(p).L[0]
			if t.op == "and" { // k in m: the domain lookup
				for _, a := range t.args {
					if a.op == "select" {
						t = a
					}
				}
			}
			ps = append(ps, t)
		}
		pats = append(pats, ps)
	}
	if e.Op == "forall" {
		return one(tBool, b.Forall(bvs, b.Imp(b.And(guards...), body), pats...))
	}
	return one(tBool, b.Exists(bvs, b.And(append(guards, body)...), pats...))
}

func (env *Env) binary(e *Expr) *Value {
	x := env.x
	b := x.b
	switch e.Name {
	case "&&":
		return one(tBool, b.And(env.bool(e.Args[0]), env.bool(e.Args[1])))
	case "||":
		return one(tBool, b.Or(env.bool(e.Args[0]), env.bool(e.Args[1])))
	case "==>":
		return one(tBool, b.Imp(env.bool(e.Args[0]), env.bool(e.Args[1])))
	case "<==>":
		return one(tBool, b.Eq(env.bool(e.Args[0]), env.bool(e.Args[1])))
	case "in":
		k := env.eval(e.Args[0])
		m := env.eval(e.Args[1])
		if m.L[0].sort == arr(SInt, SBool) {
			return one(tBool, b.Select(m.L[0], k.L[0]))
		}
		return one(tBool, x.mapHas(env.st, m, k.L[0]))
	}
	p, q := env.eval(e.Args[0]), env.eval(e.Args[1])
	switch e.Name {
	case "==", "!=":
		var r *Term
		if p.X != nil && p.L == nil {
			x.materialize(p)
		}
		if q.X != nil && q.L == nil {
			x.materialize(q)
		}
		if p.T == tNil || q.T == tNil {
			r = x.valuesEqual(p, q)
		} else if len(p.L) != len(q.L) {
			serr(e, "comparison of %s and %s", p.T, q.T)
		} else {
			var cs []*Term
			for i := range p.L {
				if p.L[i].sort != q.L[i].sort {
					serr(e, "comparison of %s and %s", p.T, q.T)
				}
				cs = append(cs, b.Eq(p.L[i], q.L[i]))
			}
			r = b.And(cs...)
		}
		if e.Name == "!=" {
			r = b.Not(r)
		}
		return one(tBool, r)
	}
	if len(p.L) != 1 || len(q.L) != 1 {
		serr(e, "operator %s on %s", e.Name, p.T)
	}
	l, r := p.L[0], q.L[0]
	if l.sort != r.sort {
		serr(e, "operator %s on %s and %s", e.Name, p.T, q.T)
	}
	if l.sort == SStr {
		switch e.Name {
		case "+":
			return one(p.T, x.sconcat(l, r))
		case "<":
			return one(tBool, x.slt(l, r))
		case ">":
			return one(tBool, x.slt(r, l))
		case "<=":
			return one(tBool, b.Not(x.slt(r, l)))
		case ">=":
			return one(tBool, b.Not(x.slt(l, r)))
		}
	}
	if l.sort != SInt && l.sort != SReal {
		serr(e, "operator %s on %s", e.Name, p.T)
	}
	switch e.Name {
	case "+":
		return one(p.T, b.Add(l, r))
	case "-":
		return one(p.T, b.Sub(l, r))
	case "*":
		return one(p.T, b.Mul(l, r))
	case "/":
		return one(p.T, x.tquo(l, r))
	case "%":
		return one(p.T, b.Sub(l, b.Mul(r, x.tquo(l, r))))
	case "<":
		return one(tBool, b.Lt(l, r))
	case "<=":
		return one(tBool, b.Le(l, r))
	case ">":
		return one(tBool, b.Lt(r, l))
	case ">=":
		return one(tBool, b.Le(r, l))
	}
	serr(e, "operator %s", e.Name)
	return nil
}

func typePkg(t types.Type) *types.Package {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (env *Env) field(e *Expr) *Value {
	x := env.x
	// package-qualified global
	if a := e.Args[0]; a.Op == "ident" {
		if _, bound := env.vars[a.Name]; !bound && (env.fr == nil || env.local(a.Name) == nil) {
			if env.pkg == nil || env.pkg.Scope().Lookup(a.Name) == nil {
				p := x.w.typesPkg(a.Name)
				if a.Name == "this" {
					p = env.pkg
				}
				if p != nil {
					if v := env.global(p, e.Name); v != nil {
						return v
					}
					serr(e, "unknown %s.%s", a.Name, e.Name)
				}
			}
		}
	}
	v := env.eval(e.Args[0])
	return env.fieldOf(v, e.Name, e)
}

func (env *Env) fieldOf(v *Value, name string, e *Expr) *Value {
	x := env.x
	// loop over several packages for unexported names in anonymous structs
	obj, path, _ := types.LookupFieldOrMethod(v.T, true, typePkg(v.T), name)
	if obj == nil {
		for _, p := range x.w.allPkgs {
			if obj, path, _ = types.LookupFieldOrMethod(v.T, true, p, name); obj != nil {
				break
			}
		}
	}
	f, ok := obj.(*types.Var)
	if !ok {
		serr(e, "no field %s in %s", name, v.T)
	}
	_ = f
	cur := v
	for _, i := range path {
		if p, ok := cur.T.Underlying().(*types.Pointer); ok {
			l := x.refLoc(p.Elem(), cur.L[0])
			if fl, ok := cur.X.(*Loc); ok {
				l = fl
			}
			cur = env.load(x.fieldLoc(l, i))
			continue
		}
		off, n := fieldRange(cur.T, i)
		ft := cur.T.Underlying().(*types.Struct).Field(i).Type()
		cur = &Value{T: ft, L: cur.L[off : off+n]}
	}
	x.attachClosure(cur)
	return cur
}

func (env *Env) index(e *Expr) *Value {
	x := env.x
	b := x.b
	s := env.eval(e.Args[0])
	i := env.eval(e.Args[1])
	switch u := s.T.Underlying().(type) {
	case *types.Slice:
		return env.load(x.elemLoc(u.Elem(), s.L[0], x.at(s.L[1], i.L[0])))
	case *types.Map:
		if i.T == tNil {
			i = x.zero(u.Key())
		}
		return x.mapGet(env.st, s, i.L[0])
	case *types.Basic:
		if s.L[0].sort == SStr {
			return one(tInt, x.sat(s.L[0], i.L[0]))
		}
	}
	if s.L[0].sort == arr(SInt, SBool) {
		return one(tBool, b.Select(s.L[0], i.L[0]))
	}
	serr(e, "cannot index %s", s.T)
	return nil
}

func (env *Env) call(e *Expr) *Value {
	x := env.x
	b := x.b
	arg := func(i int) *Value {
		if i >= len(e.Args) {
			serr(e, "missing argument of %s", e.Name)
		}
		return env.eval(e.Args[i])
	}
	switch e.Name {
	case "old":
		n := env.clone()
		n.st = env.old
		if env.fr != nil {
			// locals keep their current value, parameters mean their entry value
			n.lst = env.localSt()
			if env.fr.parent == nil {
				for i, p := range x.con.Params {
					if _, bound := n.vars[p]; !bound && i < len(x.params) {
						n.vars[p] = x.params[i]
					}
				}
			}
		}
		return n.eval(e.Args[0])
	case "up": // locals of the calling frame
		n := env.clone()
		if env.fr == nil || env.fr.parent == nil {
			serr(e, "up() outside an inlined function")
		}
		n.fr = env.fr.parent
		n.head = 0
		n.lst = env.localSt()
		return n.eval(e.Args[0])
	case "iter":
		if env.itst == nil {
			serr(e, "iter() outside a step clause")
		}
		n := env.clone()
		n.st, n.lst = env.itst, env.localSt()
		return n.eval(e.Args[0])
	case "pre":
		n := env.clone()
		if env.pre == nil {
			serr(e, "pre() outside a loop invariant")
		}
		n.st, n.lst = env.pre, nil
		return n.eval(e.Args[0])
	case "len":
		v := arg(0)
		if _, ok := v.T.Underlying().(*types.Map); ok {
			if env.ax {
				serr(e, "map len in axiom")
			}
			return one(tInt, x.mapLenTerm(env.st, v))
		}
		if v.L[0].sort == SStr {
			return one(tInt, x.slen(v.L[0]))
		}
		if len(v.L) == 4 {
			return one(tInt, v.L[2])
		}
		serr(e, "len of %s", v.T)
	case "cap":
		return one(tInt, arg(0).L[3])
	case "ref":
		return one(tInt, arg(0).L[0])
	case "off":
		return one(tInt, arg(0).L[1])
	case "bi":
		v := arg(0)
		l := x.refLoc(x.w.resolveType("math/big.Int", nil), v.L[0])
		if len(v.L) == 1 {
			if _, ok := v.T.Underlying().(*types.Pointer); !ok {
				return one(tInt, v.L[0])
			}
		}
		return one(tInt, env.load(l).L[0])
	case "ratn", "ratd":
		v := arg(0)
		if _, ok := v.T.Underlying().(*types.Pointer); ok {
			v = env.load(x.refLoc(x.w.resolveType("math/big.Rat", nil), v.L[0]))
		}
		if e.Name == "ratn" {
			return one(tInt, v.L[0])
		}
		return one(tInt, v.L[1])
	case "sbuf": // contents of a strings.Builder
		v := arg(0)
		return one(tString, env.load(x.refLoc(x.w.resolveType("strings.Builder", nil), v.L[0])).L[0])
	case "fresh":
		v := arg(0)
		a0 := x.alloc(env.old)
		return one(tBool, b.And(b.Le(a0, v.L[0]), b.Lt(v.L[0], x.alloc(env.st))))
	case "allocated":
		v := arg(0)
		return one(tBool, b.And(b.Lt(b.Int(0), v.L[0]), b.Lt(v.L[0], x.alloc(env.st))))
	case "asked": // true of every value, but solvers use facts triggered by it only for the constants of the goal
		if t := x.asked(arg(0).L[0]); t != nil {
			return one(tBool, t)
		}
		serr(e, "asked() of a value with no known term")
	case "visited":
		if env.iter == nil {
			serr(e, "visited() outside a map loop")
		}
		v := arg(0)
		return one(tBool, b.Select(x.comp(env.st, visName(env.iter), arr(x.keySort(env.iter.mt), SBool)), v.L[0]))
	case "abs":
		v := env.int(e.Args[0])
		return one(tInt, b.Ite(b.Lt(v, b.Int(0)), b.Neg(v), v))
	case "min", "max":
		p, q := env.int(e.Args[0]), env.int(e.Args[1])
		if e.Name == "min" {
			return one(tInt, b.Ite(b.Lt(q, p), q, p))
		}
		return one(tInt, b.Ite(b.Lt(p, q), q, p))
	case "sgn":
		v := env.int(e.Args[0])
		return one(tInt, b.Ite(b.Lt(v, b.Int(0)), b.Int(-1), b.Ite(b.Lt(b.Int(0), v), b.Int(1), b.Int(0))))
	case "substr":
		return one(tString, x.ssub(arg(0).L[0], env.int(e.Args[1]), env.int(e.Args[2])))
	case "unchanged":
		n := env.clone()
		n.st = env.old
		var cs []*Term
		for _, a := range e.Args {
			p, q := env.eval(a), n.eval(a)
			for i := range p.L {
				cs = append(cs, b.Eq(p.L[i], q.L[i]))
			}
		}
		return one(tBool, b.And(cs...))
	case "sameelems": // elements of two equal-length slices agree: sameelems(s) now vs old
		n := env.clone()
		n.st = env.old
		s := arg(0)
		u := s.T.Underlying().(*types.Slice)
		i := b.BV("i", SInt)
		p := env.load(x.elemLoc(u.Elem(), s.L[0], x.at(s.L[1], i)))
		q := n.load(x.elemLoc(u.Elem(), s.L[0], x.at(s.L[1], i)))
		var cs []*Term
		for j := range p.L {
			cs = append(cs, b.Eq(p.L[j], q.L[j]))
		}
		return one(tBool, b.Forall([]*Term{i}, b.Imp(b.And(b.Le(b.Int(0), i), b.Lt(i, s.L[2])), b.And(cs...))))
	case "dyntype": // dyntype(iface, "T")
		v := arg(0)
		t := x.w.resolveType(e.Args[1].Name, env.pkg)
		return one(tBool, b.Eq(v.L[0], x.typeID(t)))
	case "dynval": // dynval(iface, "T")
		v := arg(0)
		return x.unbox(x.w.resolveType(e.Args[1].Name, env.pkg), v.L[1])
	case "iface": // identity of an interface value
		return one(tInt, arg(0).L[1])
	case "apply": // apply(f, args...): value of an opaque pure function
		f := arg(0)
		sig, ok := f.T.Underlying().(*types.Signature)
		if !ok {
			serr(e, "apply of %s", f.T)
		}
		var as []*Value
		for i := 1; i < len(e.Args); i++ {
			as = append(as, arg(i))
		}
		return x.applyOpaque(f, sig, as)
	case "int":
		v := arg(0)
		return one(tInt, v.L[0])
	case "text": // the bytes of a slice as a string
		v := arg(0)
		return one(tString, x.b.Fun("bytes2str", SStr, x.bytesContent(env.st, v), v.L[1], v.L[2]))
	case "at": // entry of a log, or what a ghost has for an object
		t := b.Select(arg(0).L[0], arg(1).L[0])
		switch t.sort {
		case SStr:
			return one(tString, t)
		case SBool:
			return one(tBool, t)
		}
		return one(tInt, t)
	case "put": // a log with one entry replaced
		l := arg(0)
		return &Value{T: l.T, L: []*Term{b.Store(l.L[0], arg(1).L[0], arg(2).L[0])}}
	case "sprintf": // the text fmt.Sprintf gives
		var as []*Value
		for i := 1; i < len(e.Args); i++ {
			as = append(as, arg(i))
		}
		if as == nil {
			as = []*Value{}
		}
		return one(tString, x.fmtText(env.st, arg(0).L[0], as, 0))
	case "pure": // pure("name", args...) : the uninterpreted result of a pure library function
		var ts []*Term
		for i := 1; i < len(e.Args); i++ {
			ts = append(ts, arg(i).L...)
		}
		t := x.w.pureTypes[e.Args[0].Name]
		if t == nil {
			serr(e, "unknown pure function %s", e.Args[0].Name)
		}
		return x.pureResult(e.Args[0].Name, 0, t, ts)
	}
	if m := x.w.specs.Macros[e.Name]; m != nil {
		var as []*Value
		for i := range e.Args {
			as = append(as, env.eval(e.Args[i]))
		}
		return env.macro(m, as, e)
	}
	if u := x.w.specs.UFuns[e.Name]; u != nil {
		if len(u.Params) != len(e.Args) {
			serr(e, "%s takes %d arguments", u.Name, len(u.Params))
		}
		var ts []*Term
		for i := range e.Args {
			v := env.eval(e.Args[i])
			if v.T == tNil {
				v = x.zero(x.w.resolveType(u.Params[i], env.pkg))
			}
			if v.L == nil {
				x.materialize(v)
			}
			ts = append(ts, v.L...)
		}
		rt := x.w.resolveType(u.Ret, env.pkg)
		x.usedUF[u.Name] = true
		ls := leaves(rt)
		out := &Value{T: rt}
		for i, l := range ls {
			n := u.Name
			if len(ls) > 1 {
				n = fmt.Sprintf("%s.%d", n, i)
			}
			out.L = append(out.L, b.Fun(n, l.sort, ts...))
		}
		return out
	}
	// heap-dependent uninterpreted function: hfun name(args) keyed by components is not supported
	serr(e, "unknown function %s", e.Name)
	return nil
}

// mapLenTerm: the length of a map without extra facts.
func (x *Exec) mapLenTerm(st *State, m *Value) *Term {
	b := x.b
	mt := m.T.Underlying().(*types.Map)
	_, _, l := x.mapComps(mt)
	return b.Ite(b.Eq(m.L[0], b.Int(0)), b.Int(0), b.Select(x.comp(st, l, arr(SInt, SInt)), m.L[0]))
}

// ---- sums

type sumT struct {
	a, lo, hi, t *Term
	body, bv     *Term
}

// sumTerm represents sum(i, lo, hi, body) through an array constant standing for the summand.
func (x *Exec) sumTerm(bv, lo, hi, body *Term, st *State) *Term {
	b := x.b
	// canonical bound variable so that equal summands share an array
	cv := b.mk("bv", SInt, b.mk("?sumvar", "name"))
	cb := b.Subst(body, map[*Term]*Term{bv: cv})
	a := x.sumArr[cb]
	for f := range cb.free {
		if f != cv.id {
			panic(specErr{"sum body depends on an outer bound variable"})
		}
	}
	if a == nil {
		a = b.Fresh("summand", arr(SInt, SInt))
		x.sumArr[cb] = a
		x.sumBody[a] = func(i *Term) *Term { return b.Subst(body, map[*Term]*Term{bv: i}) }
	}
	t := b.Fun("$sum!"+a.op, SInt, lo, hi)
	x.registerSum(&sumT{a: a, lo: lo, hi: hi, t: t})
	return t
}

// registerSum adds the facts relating this sum to the earlier ones. All facts are instances of lemmas
// valid for integer sums.
func (x *Exec) registerSum(s *sumT) {
	if lo := s.lo; lo.free != nil || s.hi.free != nil {
		panic(specErr{"sum bounds depend on a bound variable"})
	}
	for _, o := range x.sums {
		if o.t == s.t {
			return
		}
	}
	x.sums = append(x.sums, s)
}

func (x *Exec) topEnv(st *State) *Env {
	env := &Env{x: x, st: st, old: x.entrySt, vars: map[string]*Value{}, pkg: x.pkg}
	for i, n := range x.con.Params {
		if i < len(x.params) {
			env.vars[n] = x.params[i]
		}
	}
	return env
}

// localEnv resolves names of Go locals at a loop header.
func (x *Exec) localEnv(fr *Frame, st *State) *Env {
	env := &Env{x: x, st: st, old: x.entrySt, vars: map[string]*Value{}, pkg: x.pkg, fr: fr}
	if fr.fn.Pkg != nil {
		env.pkg = fr.fn.Pkg.Pkg
	}
	// parameter names of the contract that differ from Go names remain usable for entry values
	for i, n := range x.con.Params {
		if i < len(x.params) {
			env.vars["$"+n] = x.params[i]
			if env.local(n) == nil {
				env.vars[n] = x.params[i]
			}
		}
	}
	return env
}

func (x *Exec) applyOpaque(f *Value, sig *types.Signature, as []*Value) *Value {
	if f.L == nil {
		x.materialize(f)
	}
	var ts []*Term
	ts = append(ts, f.L[0])
	for _, a := range as {
		if a.L == nil {
			x.materialize(a)
		}
		ts = append(ts, a.L...)
	}
	name := "apply|" + typeName(sig)
	mk := func(i int, t types.Type) *Value {
		v := &Value{T: t}
		for _, l := range leaves(t) {
			v.L = append(v.L, x.b.Fun(fmt.Sprintf("%s|%d%s", name, i, l.suf), l.sort, ts...))
		}
		return v
	}
	r := sig.Results()
	if r.Len() == 1 {
		return mk(0, r.At(0).Type())
	}
	tu := &Tuple{}
	for i := 0; i < r.Len(); i++ {
		tu.vs = append(tu.vs, mk(i, r.At(i).Type()))
	}
	return &Value{T: r, X: tu}
}

func (x *Exec) pureResult(name string, i int, t types.Type, ts []*Term) *Value {
	v := &Value{T: t}
	for _, l := range leaves(t) {
		v.L = append(v.L, x.b.Fun(fmt.Sprintf("fn|%s|%d%s", name, i, l.suf), l.sort, ts...))
	}
	return v
}
