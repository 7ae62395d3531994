package main

// Symbolic execution of go/ssa functions (naive form) into verification conditions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name    string
	Kind    string // post, pre, inv-init, inv-keep, frame, nil, bounds, exit, lemma, cover
	Pos     string
	ass     []*Term
	goal    *Term
	Status  string // proved, failed, unknown
	By      string
	Secs    float64
	Output  string
	file    string
	asserts []*Term
}

type Exec struct {
	rs                         map[int]*Value
	ks                         map[int]*Term // iteration counters of the loops being executed
	premises                   int           // number of assumptions made at entry
	askedIn                    map[*Term]bool
	lightIn                    map[*Term]bool
	b                          *TB
	w                          *World
	con                        *Contract // function under verification
	entry                      map[string]*Term
	entrySt                    *State
	assumes                    []*Term
	obls                       []*Obl
	heads                      []*State // states at the start of the iterations under way
	dry                        int
	hou                        int // inferring loop invariants
	houDead, houSeen, houKnown map[string]bool
	houDone                    map[string]bool
	houChecks                  []houCheck
	modDone                    map[string]bool
	counters                   map[string]map[int]*Term
	nfresh                     int
	ghostN                     int
	loopOrd                    map[string]int
	modCache                   map[string]map[string]bool
	top                        *Frame
	rets                       []retState
	used                       map[string]bool // contracts used
	inlined                    map[string]bool
	libUsed                    map[string]bool
	typeIDs                    map[string]int
	typeByID                   map[int]types.Type
	oblN                       map[string]int
	depth                      int
	pureCond                   int
	closures                   map[int]*Value // closures stored to heap by id
	closIDs                    map[string]int
	axioms                     []*Term
	axDone                     map[string]bool
	hoStack                    []string
	specStr                    bool
	stepN                      int
	covers                     []*Obl
	wfDone                     map[string]bool
	callN                      map[string]int

	specDepth int
	usedUF    map[string]bool
	captured  map[string]*Value // pointers to what a closure captures, by the contract's name for it
	sumArr    map[*Term]*Term
	sumBody   map[*Term]func(*Term) *Term
	sums      []*sumT
	params    []*Value
	pkg       *types.Package
	topFn     *ssa.Function
	retCond   *Term
	inAxiom   bool
	stepped   map[int]bool
	named2    map[string]bool           // names in the invariant at hand that are locals
	outer     map[string]map[string]int // names in invariants of inlined loops that are locals of a caller, and the function's own that fit
	lostNames map[string]map[string]int // names in invariants that no local has any more, and the locals that fit
	invReads  map[*Axiom]map[string]bool
	invAx     map[*Term]bool // assumed package invariants
	subjCache map[*Term][]string
	axCache   map[*Axiom]*specAx
	sumPair   map[[2]*Term][]*Term
	mu        sync.Mutex
	fileN     int
}

type retState struct {
	st   *State
	vals []*Value
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]*Value
	parent *Frame
	path   string
	params []*Value
	binds  []*Value
	loops  *LoopInfo
	cellOf map[*ssa.Alloc]int
	rets   []retState
	iters  map[ssa.Value]*MapIter
	defers []*ssa.Defer
	hoLoop *hoCtx
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.w.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, x.w.repo+"/"), ps.Line)
}

func (x *Exec) assume(st *State, f *Term) {
	if f.op == "true" {
		return
	}
	t := x.b.Imp(st.cond, f)
	if t.op == "true" {
		return
	}
	x.assumes = append(x.assumes, t)
}

func (x *Exec) fact(f *Term) {
	if f.op != "true" {
		if x.inAxiom {
			x.axioms = append(x.axioms, f)
			return
		}
		x.assumes = append(x.assumes, f)
	}
}

func (x *Exec) oblige(st *State, kind, name string, p token.Pos, goal *Term) {
	if x.dry > 0 {
		x.assume(st, goal)
		return
	}
	g := x.b.Imp(st.cond, goal)
	base := kind + ":" + name
	x.oblN[base]++
	nm := fmt.Sprintf("%s/%s#%d", x.con.Name, base, x.oblN[base])
	o := &Obl{Name: nm, Kind: kind, Pos: x.pos(p), ass: x.assumes[:len(x.assumes):len(x.assumes)], goal: g}
	if g.op == "true" {
		o.Status = "proved"
		o.By = "simplifier"
	}
	x.obls = append(x.obls, o)
	x.assume(st, goal)
}

// ---- component access

func (x *Exec) comp(st *State, name, sort string) *Term {
	if t, ok := st.comps[name]; ok {
		return t
	}
	if t, ok := x.entry[name]; ok {
		return t
	}
	t := x.b.Sym(name+"@0", sort)
	x.entry[name] = t
	if name != "$alloc" {
		x.inAxiom = true
		x.wfComp(t, name, x.comp(&State{comps: map[string]*Term{}}, "$alloc", SInt), nil)
		x.inAxiom = false
	}
	return t
}

func (x *Exec) alloc(st *State) *Term { return x.comp(st, "$alloc", SInt) }

// compInfo describes the leaves stored in components so that fresh symbols get well-formedness facts.
type compInfo struct {
	leaf  Leaf
	elem  bool // M component (Array Int (Array Int S))
	mapv  bool // MV
	glob  bool
	group string // base name without leaf part kind, to relate slice parts
	ksort string
	key   Leaf // MD: the key type
}

func (x *Exec) note(name string, ci compInfo) { x.w.compInfos[name] = ci }

// wfComp states type-level well-formedness of a component symbol with respect to allocation limit lim.
func (x *Exec) wfComp(t *Term, name string, lim *Term, guard *Term) {
	ci, ok := x.w.compInfos[name]
	if !ok {
		return
	}
	b := x.b
	cond := func(v *Term) *Term { return x.wfLeaf(ci.leaf, v, lim) }
	if ci.glob {
		x.fact(cond(t))
		return
	}
	switch {
	case ci.elem:
		r := b.BV("r", SInt)
		i := b.BV("i", SInt)
		s := b.Select(b.Select(t, r), i)
		c := cond(s)
		if c.op != "true" {
			x.fact(b.Forall([]*Term{r, i}, b.Imp(b.And(b.Lt(b.Int(0), r), b.Lt(r, lim)), c), []*Term{s}))
		}
	case ci.mapv:
		r := b.BV("r", SInt)
		i := b.BV("k", ci.ksort)
		s := b.Select(b.Select(t, r), i)
		c := cond(s)
		if ci.key.kind != 0 { // the keys present are values of the key type
			c = b.Imp(s, x.wfLeaf(ci.key, i, lim))
		}
		if c.op != "true" {
			x.fact(b.Forall([]*Term{r, i}, b.Imp(b.And(b.Lt(b.Int(0), r), b.Lt(r, lim)), c), []*Term{s}))
		}
	default:
		r := b.BV("r", SInt)
		s := b.Select(t, r)
		c := cond(s)
		if ci.leaf.kind == 'r' && ci.leaf.sort == SInt { // fields of nothing (never read by the program) are nothing
			x.fact(b.Eq(b.Select(t, b.Int(0)), b.Int(0)))
		}
		if c.op != "true" {
			x.fact(b.Forall([]*Term{r}, b.Imp(b.And(b.Lt(b.Int(0), r), b.Lt(r, lim)), c), []*Term{s}))
		}
	}
}

func (x *Exec) wfLeaf(l Leaf, v *Term, lim *Term) *Term {
	b := x.b
	switch l.kind {
	case 'r', 'a':
		if _, ok := l.typ.Underlying().(*types.Signature); ok {
			return b.True()
		}
		return b.And(b.Le(b.Int(0), v), b.Lt(v, lim))
	case 'o', 'l', 'c':
		return b.Le(b.Int(0), v)
	case 't':
		return b.Le(b.Int(0), v)
	case 'i':
		if bt, ok := l.typ.(types.Type); ok && bt != nil {
			if u, ok := l.typ.Underlying().(*types.Basic); ok {
				switch u.Kind() {
				case types.Uint8:
					return b.And(b.Le(b.Int(0), v), b.Le(v, b.Int(255)))
				case types.Uint, types.Uint16, types.Uint32, types.Uint64:
					return b.Le(b.Int(0), v)
				}
			}
		}
	}
	return b.True()
}

// wfSlice relates the parts of a slice value.
func (x *Exec) wfSlice(l []*Term) *Term {
	b := x.b
	return b.And(b.Le(b.Int(0), l[1]), b.Le(b.Int(0), l[2]), b.Le(l[2], l[3]),
		b.Imp(b.Eq(l[0], b.Int(0)), b.And(b.Eq(l[3], b.Int(0)), b.Eq(l[1], b.Int(0)))))
}

// wfValue: assumptions for an arbitrary value of its type.
func (x *Exec) wfValue(v *Value, lim *Term) *Term {
	ls := leaves(v.T)
	var cs []*Term
	for i, l := range ls {
		cs = append(cs, x.wfLeaf(l, v.L[i], lim))
		if l.kind == 'a' {
			cs = append(cs, x.wfSlice(v.L[i:i+4]))
		}
		if l.kind == 't' {
			cs = append(cs, x.b.Imp(x.b.Eq(v.L[i], x.b.Int(0)), x.b.Eq(v.L[i+1], x.b.Int(0))))
		}
	}
	return x.b.And(cs...)
}

func structKey(t types.Type) string { return typeName(t) }

// locComps lists (component name, leaf) of a location of type T.
func (x *Exec) locComps(l *Loc) []string {
	var out []string
	for _, lf := range leaves(l.typ) {
		n := l.base + lf.suf
		switch l.kind {
		case "heap":
			x.note(n, compInfo{leaf: lf})
		case "elem":
			x.note(n, compInfo{leaf: lf, elem: true})
		case "global":
			x.note(n, compInfo{leaf: lf, glob: true})
		}
		out = append(out, n)
	}
	return out
}

func (x *Exec) load(st *State, l *Loc) *Value {
	ls := leaves(l.typ)
	v := &Value{T: l.typ, L: make([]*Term, len(ls))}
	if l.kind == "cell" {
		c := st.cells[l.cell]
		if c == nil {
			bail("read of unset local cell")
		}
		if l.off == 0 && (len(c.L) == len(ls) || c.L == nil && c.X != nil) {
			r := *c
			r.T = l.typ
			return &r
		}
		copy(v.L, c.L[l.off:l.off+len(ls)])
		return v
	}
	names := x.locComps(l)
	for i, lf := range ls {
		switch l.kind {
		case "heap":
			v.L[i] = x.b.Select(x.comp(st, names[i], arr(SInt, lf.sort)), l.ref)
		case "elem":
			v.L[i] = x.b.Select(x.b.Select(x.comp(st, names[i], arr(SInt, arr(SInt, lf.sort))), l.ref), l.idx)
		case "global":
			v.L[i] = x.comp(st, names[i], lf.sort)
		}
	}
	x.attachClosure(v)
	return v
}

// loadWF loads and assumes the slice-level relations of the loaded value (scalar ones come from the component axioms).
func (x *Exec) loadWF(st *State, l *Loc) *Value {
	v := x.load(st, l)
	if l.kind != "cell" {
		var cs []*Term
		for i, lf := range leaves(v.T) {
			if lf.kind == 'a' {
				cs = append(cs, x.wfSlice(v.L[i:i+4]))
			}
			if lf.kind == 't' {
				cs = append(cs, x.b.Imp(x.b.Eq(v.L[i], x.b.Int(0)), x.b.Eq(v.L[i+1], x.b.Int(0))))
			}
			// every value read from the heap refers to allocated objects only
			if v.L[i].op == "select" && v.L[i].free == nil {
				cs = append(cs, x.wfLeaf(lf, v.L[i], x.alloc(st)))
			}
		}
		x.assume(st, x.b.And(cs...))
	}
	return v
}

func (x *Exec) attachClosure(v *Value) {
	if _, ok := v.T.Underlying().(*types.Signature); ok && len(v.L) == 1 && v.L[0].op == "int" {
		if c, ok := x.closures[int(v.L[0].val.Int64())]; ok {
			v.X = c.X
		}
	}
}

func (x *Exec) store(st *State, l *Loc, v *Value) {
	ls := leaves(l.typ)
	if l.kind == "cell" {
		c := st.cells[l.cell]
		if l.off == 0 && (c == nil || len(c.L) == len(ls)) {
			nv := *v
			nv.T = l.typ
			st.cells[l.cell] = &nv
			return
		}
		x.materialize(v)
		nv := &Value{T: c.T, L: append([]*Term{}, c.L...)}
		copy(nv.L[l.off:], v.L)
		st.cells[l.cell] = nv
		return
	}
	x.materialize(v)
	if len(v.L) != len(ls) {
		bail("store leaf mismatch %s into %s", v.T, l.typ)
	}
	names := x.locComps(l)
	for i, lf := range ls {
		switch l.kind {
		case "heap":
			st.comps[names[i]] = x.b.Store(x.comp(st, names[i], arr(SInt, lf.sort)), l.ref, v.L[i])
		case "elem":
			c := x.comp(st, names[i], arr(SInt, arr(SInt, lf.sort)))
			st.comps[names[i]] = x.b.Store(c, l.ref, x.b.Store(x.b.Select(c, l.ref), l.idx, v.L[i]))
		case "global":
			st.comps[names[i]] = v.L[i]
		}
	}
}

// materialize gives scalar leaves to special values (closures).
func (x *Exec) materialize(v *Value) {
	if v.L != nil {
		return
	}
	switch c := v.X.(type) {
	case *Closure:
		key := fmt.Sprintf("%s|%p", c.fn.String(), c)
		if len(c.bindings) == 0 {
			key = c.fn.String()
		}
		id, ok := x.closIDs[key]
		if !ok {
			id = 1000 + len(x.closIDs)
			x.closIDs[key] = id
			x.closures[id] = v
		}
		v.L = []*Term{x.b.Int(int64(id))}
	case *FuncChoice:
		x.materialize(c.a)
		x.materialize(c.b)
		v.L = []*Term{x.b.Ite(c.cond, c.a.L[0], c.b.L[0])}
	case *Loc:
		if c.kind == "heap" && c.base == "P|"+typeName(c.typ)+"|" {
			v.L = []*Term{c.ref}
			return
		}
		bail("address of %s %s escapes", c.kind, c.typ)
	default:
		bail("cannot materialize value of type %s", v.T)
	}
}

func (x *Exec) zero(t types.Type) *Value {
	v := &Value{T: t}
	for _, l := range leaves(t) {
		v.L = append(v.L, x.zeroLeaf(l))
	}
	return v
}

func (x *Exec) zeroLeaf(l Leaf) *Term {
	switch l.sort {
	case SBool:
		return x.b.False()
	case SStr:
		return x.b.StrLit("")
	case SReal:
		return x.b.mk("0.0", SReal)
	}
	return x.b.Int(0)
}

func (x *Exec) freshValue(hint string, t types.Type) *Value {
	v := &Value{T: t}
	if tt, ok := t.(*types.Tuple); ok {
		tu := &Tuple{}
		for i := 0; i < tt.Len(); i++ {
			tu.vs = append(tu.vs, x.freshValue(hint, tt.At(i).Type()))
		}
		v.X = tu
		return v
	}
	for _, l := range leaves(t) {
		v.L = append(v.L, x.b.Fresh(hint+l.suf, l.sort))
	}
	return v
}

func (x *Exec) newRef(st *State) *Term {
	a := x.alloc(st)
	st.comps["$alloc"] = x.b.Add(a, x.b.Int(1))
	return a
}

// ptrLoc gives the location designated by pointer value p (element type t).
func (x *Exec) ptrLoc(st *State, p *Value, pos token.Pos) *Loc {
	if l, ok := p.X.(*Loc); ok {
		return l
	}
	t := derefType(p.T)
	ref := p.L[0]
	x.oblige(st, "nil", "nil dereference", pos, x.b.Not(x.b.Eq(ref, x.b.Int(0))))
	return x.refLoc(t, ref)
}

func (x *Exec) refLoc(t types.Type, ref *Term) *Loc {
	if isStruct(t) {
		return &Loc{kind: "heap", base: "F|" + structKey(t) + "|", ref: ref, typ: t}
	}
	return &Loc{kind: "heap", base: "P|" + typeName(t) + "|", ref: ref, typ: t}
}

func (x *Exec) fieldLoc(l *Loc, i int) *Loc {
	st := l.typ.Underlying().(*types.Struct)
	f := st.Field(i)
	if l.kind == "cell" {
		off, _ := fieldRange(l.typ, i)
		return &Loc{kind: "cell", cell: l.cell, off: l.off + off, typ: f.Type()}
	}
	return &Loc{kind: l.kind, base: l.base + "." + f.Name(), ref: l.ref, idx: l.idx, typ: f.Type()}
}

func elemBase(t types.Type) string { return "M|" + typeName(t) + "|" }

func (x *Exec) elemLoc(et types.Type, a, idx *Term) *Loc {
	return &Loc{kind: "elem", base: elemBase(et), ref: a, idx: idx, typ: et}
}

// ---- blocks, merging

type edgeState struct {
	from *ssa.BasicBlock
	st   *State
}

func (x *Exec) merge(es []edgeState) *State {
	if len(es) == 1 {
		return es[0].st.clone()
	}
	b := x.b
	var conds []*Term
	for _, e := range es {
		conds = append(conds, e.st.cond)
	}
	out := &State{cond: b.Or(conds...), comps: map[string]*Term{}, cells: map[int]*Value{}}
	names := map[string]bool{}
	for _, e := range es {
		for k := range e.st.comps {
			names[k] = true
		}
	}
	for _, k := range sortedKeys(names) {
		var vals []*Term
		var srt string
		for _, e := range es {
			if t, ok := e.st.comps[k]; ok {
				srt = t.sort
			}
		}
		for _, e := range es {
			vals = append(vals, x.comp(e.st, k, srt))
		}
		out.comps[k] = x.mergeTerms(conds, vals)
	}
	var ids []int
	for id := range es[0].st.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		var vals []*Value
		ok := true
		for _, e := range es {
			v := e.st.cells[id]
			if v == nil {
				ok = false
				break
			}
			vals = append(vals, v)
		}
		if !ok {
			continue
		}
		out.cells[id] = x.mergeValues(conds, vals)
	}
	return out
}

func (x *Exec) mergeTerms(conds, vals []*Term) *Term {
	r := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		r = x.choose(conds[i], vals[i], r)
	}
	return r
}

// choose is a conditional; arrays get a name, so that quantifier patterns apply to their elements.
func (x *Exec) choose(c, p, q *Term) *Term {
	if !strings.HasPrefix(p.sort, "(Array") {
		return x.b.Ite(c, p, q)
	}
	return x.named(c, p, q)
}

func (x *Exec) named(c, p, q *Term) *Term {
	if x.con == nil || !x.con.opt("names") {
		return x.b.Ite(c, p, q)
	}
	if r := x.b.Ite(c, p, q); r.op != "ite" {
		return r
	}
	m := x.b.Fresh("merge", p.sort)
	x.fact(x.b.Imp(c, x.b.Eq(m, p)))
	x.fact(x.b.Imp(x.b.Not(c), x.b.Eq(m, q)))
	return m
}

func (x *Exec) mergeValues(conds []*Term, vals []*Value) *Value {
	same := true
	for _, v := range vals[1:] {
		if v != vals[0] {
			same = false
		}
	}
	if same {
		return vals[0]
	}
	out := &Value{T: vals[0].T}
	special := false
	for _, v := range vals {
		if v.X != nil {
			special = true
		}
	}
	if special {
		allX := true
		for _, v := range vals {
			if v.X != vals[0].X {
				allX = false
			}
		}
		if allX && vals[0].L == nil {
			return vals[0]
		}
		if tu, ok := vals[0].X.(*Tuple); ok {
			nt := &Tuple{}
			for i := range tu.vs {
				var vs []*Value
				for _, v := range vals {
					vs = append(vs, v.X.(*Tuple).vs[i])
				}
				nt.vs = append(nt.vs, x.mergeValues(conds, vs))
			}
			return &Value{T: out.T, X: nt}
		}
		if _, ok := out.T.Underlying().(*types.Signature); ok {
			r := vals[len(vals)-1]
			for i := len(vals) - 2; i >= 0; i-- {
				r = &Value{T: out.T, X: &FuncChoice{conds[i], vals[i], r}}
				x.materializeQuiet(r)
			}
			return r
		}
		// locations: only if identical
		if l0, ok := vals[0].X.(*Loc); ok {
			for _, v := range vals[1:] {
				l, ok := v.X.(*Loc)
				if !ok || *l != *l0 {
					// try to make plain refs
					for _, v := range vals {
						x.materialize(v)
						v.X = nil
					}
					goto plain
				}
			}
			return vals[0]
		}
		for _, v := range vals {
			x.materialize(v)
		}
	}
plain:
	n := len(vals[0].L)
	for i := 0; i < n; i++ {
		var ts []*Term
		for _, v := range vals {
			if len(v.L) != n {
				bail("merge of mismatched values %s", v.T)
			}
			ts = append(ts, v.L[i])
		}
		if n == 4 && i == 0 { // storage of slices
			r := ts[len(ts)-1]
			for j := len(ts) - 2; j >= 0; j-- {
				r = x.named(conds[j], ts[j], r)
			}
			out.L = append(out.L, r)
			continue
		}
		out.L = append(out.L, x.mergeTerms(conds, ts))
	}
	return out
}

func (x *Exec) materializeQuiet(v *Value) {
	c := v.X.(*FuncChoice)
	if c.a.L == nil {
		if _, ok := c.a.X.(*Loc); ok {
			return
		}
		x.materialize(c.a)
	}
	if c.b.L == nil {
		x.materialize(c.b)
	}
	v.L = []*Term{x.b.Ite(c.cond, c.a.L[0], c.b.L[0])}
}

// ---- loops

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type LoopInfo struct {
	rpo   []*ssa.BasicBlock
	index map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*Loop
}

func analyze(fn *ssa.Function) *LoopInfo {
	li := &LoopInfo{index: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.index[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.loops[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.loops[s] = l
				}
				var up func(n *ssa.BasicBlock)
				up = func(n *ssa.BasicBlock) {
					if l.blocks[n] {
						return
					}
					l.blocks[n] = true
					for _, p := range n.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			} else if li.index[s] <= li.index[b] {
				bail("irreducible control flow in %s", fn)
			}
		}
	}
	// keep RPO such that loop bodies are contiguous enough: process by index restricted to sets
	return li
}

// runRegion executes the blocks in set (nil = whole function) in RPO. in maps blocks to incoming edges.
// Edges to `head` (when non-nil and not first) are collected as back edges.
func (x *Exec) runRegion(fr *Frame, set map[*ssa.BasicBlock]bool, in map[*ssa.BasicBlock][]edgeState, head *ssa.BasicBlock) (back []edgeState, exits map[*ssa.BasicBlock][]edgeState) {
	exits = map[*ssa.BasicBlock][]edgeState{}
	done := map[*ssa.BasicBlock]bool{}
	for _, blk := range fr.loops.rpo {
		if set != nil && !set[blk] || done[blk] {
			continue
		}
		es := in[blk]
		if len(es) == 0 {
			continue
		}
		route := func(to *ssa.BasicBlock, e edgeState) {
			if e.st.cond.op == "false" {
				return
			}
			if to == head {
				back = append(back, e)
			} else if set != nil && !set[to] {
				exits[to] = append(exits[to], e)
			} else {
				in[to] = append(in[to], e)
			}
		}
		if l := fr.loops.loops[blk]; l != nil && blk != head {
			for n := range l.blocks {
				done[n] = true
			}
			ex := x.runLoop(fr, l, es)
			for to, list := range ex {
				_ = to
				_ = list
			}
			for _, to := range fr.loops.rpo {
				for _, e := range ex[to] {
					route(to, e)
				}
			}
			continue
		}
		st := x.merge(es)
		// phis
		x.doPhis(fr, blk, es)
		x.runBlock(fr, blk, st, route)
	}
	return back, exits
}

func (x *Exec) doPhis(fr *Frame, blk *ssa.BasicBlock, es []edgeState) {
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var conds []*Term
		var vals []*Value
		for _, e := range es {
			for pi, p := range blk.Preds {
				if p == e.from {
					conds = append(conds, e.st.cond)
					vals = append(vals, x.val(fr, e.st, ph.Edges[pi]))
					break
				}
			}
		}
		fr.regs[ph] = x.mergeValues(conds, vals)
	}
}

func (x *Exec) runBlock(fr *Frame, blk *ssa.BasicBlock, st *State, route func(*ssa.BasicBlock, edgeState)) {
	for _, in := range blk.Instrs {
		x.stepN++
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.val(fr, st, in.Cond).L[0]
			t := st.clone()
			t.cond = x.b.And(st.cond, c)
			f := st.clone()
			f.cond = x.b.And(st.cond, x.b.Not(c))
			route(blk.Succs[0], edgeState{blk, t})
			route(blk.Succs[1], edgeState{blk, f})
			return
		case *ssa.Jump:
			route(blk.Succs[0], edgeState{blk, st})
			return
		case *ssa.Return:
			var vs []*Value
			for _, r := range in.Results {
				vs = append(vs, x.val(fr, st, r))
			}
			fr.rets = append(fr.rets, retState{st, vs})
			return
		case *ssa.Panic:
			x.atExit(fr, st, "panic", in.Pos())
			return
		default:
			if !x.instr(fr, st, in) {
				return // path ended
			}
			if st.cond.op == "false" {
				return
			}
		}
	}
}

// atExit: the program ends here (panic or os.Exit).
func (x *Exec) atExit(fr *Frame, st *State, kind string, pos token.Pos) {
	for _, c := range x.con.Exits {
		env := x.topEnv(st)
		x.oblige(st, "exit", c.label(), pos, x.w.evalBool(env, c.E))
	}
}

// loop key
func (x *Exec) loopNo(fr *Frame, key string) int {
	k := fr.path + "@" + key
	if n, ok := x.loopOrd[k]; ok {
		return n
	}
	n := len(x.loopOrd) + 1
	x.loopOrd[k] = n
	return n
}

type hoCtx struct{}

func (x *Exec) runLoop(fr *Frame, l *Loop, es []edgeState) map[*ssa.BasicBlock][]edgeState {
	no := x.loopNo(fr, fmt.Sprintf("b%d", l.head.Index))
	entry := x.merge(es)
	x.doPhis(fr, l.head, es) // phis in loop headers do not occur in naive form except for && / ||
	body := func(st *State) ([]edgeState, map[*ssa.BasicBlock][]edgeState) {
		in := map[*ssa.BasicBlock][]edgeState{l.head: {{nil, st}}}
		return x.runRegionHead(fr, l, in)
	}
	var exits map[*ssa.BasicBlock][]edgeState
	x.loopCommon(fr, no, l.head.Instrs[0].Pos(), entry, x.headIter(fr, l), func(st *State) []edgeState {
		b, e := body(st)
		exits = e
		return b
	}, l)
	return exits
}

// cut forgets the quantified facts established so far, except the function's premises and facts about single heap components.
type houCheck struct {
	name    string
	assumes []*Term
	goal    *Term
}

func (x *Exec) cut(st *State) {
	b := x.b
	var keep []*Term
	for _, c := range sortedKeys(st.comps) {
		cur, e0 := st.comps[c], x.entry[c]
		ci, ok := x.w.compInfos[c]
		if !ok || ci.glob || e0 == nil || cur == e0 || !strings.HasPrefix(cur.sort, "(Array Int") {
			continue
		}
		r := b.BV("r", SInt)
		g := b.Forall([]*Term{r}, b.Imp(b.And(b.Lt(b.Int(0), r), b.Lt(r, x.entry["$alloc"])), b.Eq(b.Select(cur, r), b.Select(e0, r))), []*Term{b.Select(cur, r)})
		if f := b.Imp(st.cond, g); x.w.quick(x, x.assumes, f) {
			keep = append(keep, f)
		}
	}
	n := append([]*Term{}, x.assumes[:x.premises]...)
	for _, t := range x.assumes[x.premises:] {
		if len(x.subjects(t)) == 1 || !hasQuant(t) {
			n = append(n, t)
		}
	}
	x.assumes = append(n, keep...)
}

func hasQuant(t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t.op == "forall" || t.op == "exists" {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func (x *Exec) headIter(fr *Frame, l *Loop) ssa.Value {
	for _, in := range l.head.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			return n.Iter
		}
	}
	return nil
}

func (x *Exec) runRegionHead(fr *Frame, l *Loop, in map[*ssa.BasicBlock][]edgeState) ([]edgeState, map[*ssa.BasicBlock][]edgeState) {
	return x.runRegion(fr, l.blocks, in, l.head)
}

// ranged is the slice a range loop runs over.
func ranged(l *Loop) ssa.Value {
	if l == nil {
		return nil
	}
	var idx *ssa.Alloc
	for _, in := range l.head.Instrs {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			if a, ok := u.X.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				idx = a
			}
		}
	}
	if idx == nil {
		return nil
	}
	for blk := range l.blocks {
		for _, in := range blk.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if u, ok := ia.Index.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == idx {
					if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
						return ia.X
					}
				}
			}
		}
	}
	return nil
}

const visPrefix = "$vis"

// loopCommon implements the invariant rule. body runs one iteration from the header state and returns back-edge states.
func (x *Exec) loopCommon(fr *Frame, no int, pos token.Pos, entry *State, iter ssa.Value, body func(*State) []edgeState, l *Loop) {
	b := x.b
	key := fmt.Sprintf("%s@L%d", fr.path, no)
	mod := x.modCache[key]
	if mod == nil {
		mod = map[string]bool{}
	}
	kname := fmt.Sprintf("$k%d", no)
	if x.ks == nil {
		x.ks = map[int]*Term{}
	}
	x.ks[no] = b.Fresh(kname, SInt)
	if x.rs == nil {
		x.rs = map[int]*Value{}
	}
	if v := ranged(l); v != nil {
		x.rs[no] = x.val(fr, entry, v)
	}
	savedRegs := copyRegs(fr)
	savedRets := len(fr.rets)
	havoc := func() *State {
		st := entry.clone()
		na := b.Fresh("alloc", SInt)
		if mod["c:$alloc"] {
			st.comps["$alloc"] = na
		}
		lim := x.alloc(st)
		if mod["c:$alloc"] {
			// what the loop does not write is well formed for the objects it allocated, too
			for _, n := range sortedKeys(x.entry) {
				ci, ok := x.w.compInfos[n]
				if !ok || ci.glob || ci.elem || ci.mapv || ci.leaf.kind != 'r' || mod["c:"+n] {
					continue
				}
				x.wfComp(x.comp(st, n, ""), n, lim, nil)
			}
		}
		for _, m := range sortedKeys(mod) {
			if m == "c:$alloc" {
				continue
			}
			if strings.HasPrefix(m, "c:") {
				n := m[2:]
				old := entry.comps[n]
				if old == nil {
					old = x.entry[n]
				}
				if old == nil { // written without having been read before
					if ci, ok := x.w.compInfos[n]; ok && ci.glob {
						old = x.comp(entry, n, ci.leaf.sort)
					} else {
						bail("loop writes %s, which nothing reads", n)
					}
				}
				nt := b.Fresh(n, old.sort)
				st.comps[n] = nt
				x.wfComp(nt, n, lim, nil)
			} else {
				var id int
				fmt.Sscanf(m, "l:%d", &id)
				v := entry.cells[id]
				if v == nil {
					continue
				}
				if v.L == nil {
					bail("loop changes a local holding a %T", v.X)
				}
				nv := x.freshValue(x.cellHint(id), v.T)
				st.cells[id] = nv
				x.assume(st, x.wfValue(nv, lim))
			}
		}
		return st
	}
	// dry runs to find what the loop modifies
	for round := 0; x.hou == 0 || !x.modDone[key]; round++ {
		if round > 8 {
			bail("loop modification set does not stabilise")
		}
		na, no2 := x.assumes, len(x.obls)
		x.dry++
		st := havoc()
		h := st.clone()
		hou := x.hou
		x.hou = 0
		backs := body(st)
		x.hou = hou
		x.dry--
		x.assumes = na
		x.obls = x.obls[:no2]
		fr.regs = copyRegsOf(savedRegs)
		fr.rets = fr.rets[:savedRets]
		changed := false
		for _, e := range backs {
			for _, n := range sortedKeys(e.st.comps) {
				o, ok := h.comps[n]
				if !ok {
					o = x.entry[n]
				}
				if o != e.st.comps[n] && !mod["c:"+n] {
					mod["c:"+n] = true
					changed = true
				}
			}
			for id, v := range e.st.cells {
				o := h.cells[id]
				if o == nil {
					continue
				}
				k := fmt.Sprintf("l:%d", id)
				if !sameValue(o, v) && !mod[k] {
					mod[k] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	x.modCache[key] = mod
	x.modDone[key] = true
	if x.dry > 0 && x.hou == 0 {
		st := havoc()
		body(st)
		return
	}
	// counters: cells changed by a constant in every iteration
	counters := x.counters[key]
	if counters == nil {
		counters = map[int]*Term{}
		x.counters[key] = counters
		hou := x.hou
		x.hou = 0
		na, no2 := x.assumes, len(x.obls)
		x.dry++
		st := havoc()
		h := st.clone()
		backs := body(st)
		x.dry--
		x.assumes = na
		x.obls = x.obls[:no2]
		fr.regs = copyRegsOf(savedRegs)
		fr.rets = fr.rets[:savedRets]
		for id, hv := range h.cells {
			if !mod[fmt.Sprintf("l:%d", id)] || len(hv.L) != 1 || hv.L[0].sort != SInt {
				continue
			}
			var step *Term
			ok := len(backs) > 0
			for _, e := range backs {
				v := e.st.cells[id]
				if v == nil || len(v.L) != 1 {
					ok = false
					break
				}
				d := b.Sub(v.L[0], hv.L[0])
				if d.op != "int" || step != nil && step != d {
					ok = false
					break
				}
				step = d
			}
			if ok && step != nil {
				counters[id] = step
			}
		}
		x.hou = hou
	}
	// invariant evaluation
	invs := x.con.loopInvs(no)
	var viter *MapIter
	if iter != nil {
		viter = x.val(fr, entry, iter).X.(*MapIter)
	}
	invEnv := func(st *State, k *Term) *Env {
		env := x.localEnv(fr, st)
		env.inv = true
		env.pre = entry
		env.k = k
		env.r = x.rs[no]
		env.iter = viter
		return env
	}
	evalInv := func(st *State, k *Term, e *Expr) *Term {
		return x.w.evalBool(invEnv(st, k), e)
	}
	zero := b.Int(0)
	// a clause naming a local the loop no longer has is dropped: what it supported then fails by itself
	{
		var keep []*Clause
		for _, c := range invs {
			ok := true
			func() {
				defer func() {
					if r := recover(); r != nil {
						se, is := r.(specErr)
						if !is {
							panic(r)
						}
						ok = false
						x.lost(invEnv(entry, zero), c.E, se.msg)
					}
				}()
				evalInv(entry, zero, c.E)
			}()
			if ok {
				keep = append(keep, c)
				x.shadowed(invEnv(entry, zero), c.E)
			} else {
				if os.Getenv("GCV_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "dropped invariant", c.label())
				}
				x.libUsed["dropped: invariant "+c.label()+" does not fit the loop any more"] = true
			}
		}
		invs = keep
	}
	for _, c := range invs {
		x.oblige(entry, "inv-init", fmt.Sprintf("loop%d:%s", no, c.label()), pos, evalInv(entry, zero, c.E))
	}
	// automatic candidates
	type cand struct {
		name string
		f    func(st *State, k *Term) *Term
		ok   bool
	}
	var cands []*cand
	allowed := map[string][]modTarget{}
	if len(x.con.Modifies) > 0 {
		env := x.topEnv(x.entrySt)
		for _, m := range x.con.Modifies {
			for _, t := range env.modTargets(m) {
				allowed[t.comp] = append(allowed[t.comp], t)
			}
		}
	}
	for _, m := range sortedKeys(mod) {
		m := m
		if strings.HasPrefix(m, "c:") && m != "c:$alloc" {
			n := m[2:]
			ci, okc := x.w.compInfos[n]
			old := x.comp(entry, n, "")
			if !okc || ci.glob || !strings.HasPrefix(old.sort, "(Array Int") {
				continue
			}
			lim := x.alloc(entry)
			// objects the contract allows to change are exempt
			var exempt []*Term
			whole := false
			for _, t := range allowed[n] {
				if t.ref == nil {
					whole = true
				} else {
					exempt = append(exempt, t.ref)
				}
			}
			if len(exempt) > 0 && !whole {
				cands = append(cands, &cand{name: "frameX " + n, ok: true, f: func(st *State, k *Term) *Term {
					cur := x.comp(st, n, old.sort)
					if cur == old {
						return b.True()
					}
					r := b.BV("r", SInt)
					g := []*Term{b.Lt(zero, r), b.Lt(r, lim)}
					for _, q := range exempt {
						g = append(g, b.Not(b.Eq(r, q)))
					}
					return b.Forall([]*Term{r}, b.Imp(b.And(g...), b.Eq(b.Select(cur, r), b.Select(old, r))), []*Term{b.Select(cur, r)})
				}})
			}
			// only objects allocated inside the loop are written
			cands = append(cands, &cand{name: "frame " + n, ok: true, f: func(st *State, k *Term) *Term {
				cur := x.comp(st, n, old.sort)
				if cur == old {
					return b.True()
				}
				r := b.BV("r", SInt)
				return b.Forall([]*Term{r}, b.Imp(b.And(b.Lt(zero, r), b.Lt(r, lim)), b.Eq(b.Select(cur, r), b.Select(old, r))), []*Term{b.Select(cur, r)})
			}})
			// the same except for slices the loop appends to
			var own []*Term
			for _, m := range sortedKeys(mod) {
				var id int
				if _, err := fmt.Sscanf(m, "l:%d", &id); err == nil && entry.cells[id] != nil && len(entry.cells[id].L) == 4 {
					if r := entry.cells[id].L[0]; r != zero {
						own = append(own, r)
					}
				}
			}
			if len(own) > 0 && ci.elem {
				cands = append(cands, &cand{name: "frameS " + n, ok: true, f: func(st *State, k *Term) *Term {
					cur := x.comp(st, n, old.sort)
					if cur == old {
						return b.True()
					}
					r := b.BV("r", SInt)
					g := []*Term{b.Lt(zero, r), b.Lt(r, lim)}
					for _, q := range own {
						g = append(g, b.Not(b.Eq(r, q)))
					}
					return b.Forall([]*Term{r}, b.Imp(b.And(g...), b.Eq(b.Select(cur, r), b.Select(old, r))), []*Term{b.Select(cur, r)})
				}})
			}
			// same relative to the start of the iteration of the enclosing loop
			if nh := len(x.heads); nh > 0 {
				hd := x.heads[nh-1]
				h0, hl := x.comp(hd, n, old.sort), x.alloc(hd)
				if h0 != old || hl != lim {
					cands = append(cands, &cand{name: "frame1 " + n, ok: true, f: func(st *State, k *Term) *Term {
						cur := x.comp(st, n, old.sort)
						r := b.BV("r", SInt)
						return b.Forall([]*Term{r}, b.Imp(b.And(b.Lt(zero, r), b.Lt(r, hl)), b.Eq(b.Select(cur, r), b.Select(h0, r))), []*Term{b.Select(cur, r)})
					}})
				}
			}
			// same relative to function entry: objects existing at function entry are unchanged
			e0 := x.entry[n]
			lim0 := x.entry["$alloc"]
			if e0 != nil && lim0 != nil && (e0 != old || lim0 != lim) {
				cands = append(cands, &cand{name: "frame0 " + n, ok: true, f: func(st *State, k *Term) *Term {
					cur := x.comp(st, n, old.sort)
					r := b.BV("r", SInt)
					return b.Forall([]*Term{r}, b.Imp(b.And(b.Lt(zero, r), b.Lt(r, lim0)), b.Eq(b.Select(cur, r), b.Select(e0, r))), []*Term{b.Select(cur, r)})
				}})
			}
		}
	}
	for _, iv := range x.invs() {
		iv := iv
		reads := false
		for n := range x.invReads[iv] {
			reads = reads || n != "$alloc" && mod["c:"+n]
		}
		if reads && !x.con.opt("noinv") {
			cands = append(cands, &cand{name: "package invariant " + iv.Label, ok: true, f: func(st *State, k *Term) *Term { return x.evalInv(iv, st) }})
		}
	}
	if l != nil {
		for _, c := range x.boundCands(fr, l, entry, mod) {
			c := c
			cands = append(cands, &cand{name: "bound", ok: true, f: func(st *State, k *Term) *Term { return c(st) }})
		}
	}
	// modified locals: nullness, freshness, monotonicity
	fe := x.entry["$alloc"]
	for _, m := range sortedKeys(mod) {
		if !strings.HasPrefix(m, "l:") {
			continue
		}
		var id int
		fmt.Sscanf(m, "l:%d", &id)
		ev := entry.cells[id]
		if ev == nil || ev.L == nil {
			continue
		}
		add := func(nm string, f func(v *Value) *Term) {
			cands = append(cands, &cand{name: nm, ok: true, f: func(st *State, k *Term) *Term {
				v := st.cells[id]
				if v == nil || len(v.L) != len(ev.L) {
					return b.True()
				}
				return f(v)
			}})
		}
		switch ls := leaves(ev.T); {
		case len(ls) == 4 && ls[0].kind == 'a':
			if fe != nil {
				add("fresh slice", func(v *Value) *Term { return b.Or(b.Eq(v.L[3], zero), b.Le(fe, v.L[0])) })
			}
			lim := x.alloc(entry)
			if lim != fe {
				add("slice of the loop", func(v *Value) *Term { return b.Or(b.Eq(v.L[3], zero), b.Le(lim, v.L[0])) })
			}
			add("own slice", func(v *Value) *Term { return b.Or(b.Eq(v.L[3], zero), b.Le(lim, v.L[0]), b.Eq(v.L[0], ev.L[0])) })
			add("slice grows", func(v *Value) *Term { return b.Le(ev.L[2], v.L[2]) })
			add("slice offset", func(v *Value) *Term { return b.Eq(ev.L[1], v.L[1]) })
		case len(ls) == 1 && ls[0].kind == 'r':
			add("not nil", func(v *Value) *Term { return b.Not(b.Eq(v.L[0], zero)) })
			if fe != nil {
				add("fresh or nil", func(v *Value) *Term { return b.Or(b.Eq(v.L[0], zero), b.Le(fe, v.L[0])) })
			}
		case len(ls) == 1 && ls[0].kind == 'i' && ls[0].sort == SInt && counters[id] == nil:
			add("grows", func(v *Value) *Term { return b.Le(ev.L[0], v.L[0]) })
			add("not negative", func(v *Value) *Term { return b.Le(zero, v.L[0]) })
		}
	}
	assumeInv := func(st *State, k *Term) {
		x.assume(st, b.Le(zero, k))
		for id, step := range counters {
			x.assume(st, b.Eq(st.cells[id].L[0], b.Add(entry.cells[id].L[0], b.Mul(step, k))))
		}
		if mod["c:$alloc"] {
			x.assume(st, b.Le(x.alloc(entry), x.alloc(st)))
		}
		if viter != nil && mod["c:"+visName(viter)] {
			// visited keys are keys: existing objects, and members of the map unless it is modified by the loop
			ks := x.keySort(viter.mt)
			vis := x.comp(st, visName(viter), arr(ks, SBool))
			q := b.BV("k", ks)
			w := x.wfValue(&Value{T: viter.mt.Key(), L: []*Term{q}}, x.alloc(st))
			if d, _, _ := x.mapComps(viter.mt); !mod["c:"+d] {
				w = b.And(w, b.Select(x.domOf(st, d, ks, viter.m.L[0]), q))
			}
			x.assume(st, b.Forall([]*Term{q}, b.Imp(b.Select(vis, q), w), []*Term{b.Select(vis, q)}))
		}
		for _, c := range cands {
			if c.ok {
				x.assume(st, c.f(st, k))
			}
		}
		for _, c := range invs {
			x.assume(st, evalInv(st, k, c.E))
		}
	}
	// Houdini over the candidates of this loop and those nested in it
	names := map[string]int{}
	for _, c := range cands {
		names[c.name]++
		if n := names[c.name]; n > 1 {
			c.name += fmt.Sprintf("#%d", n)
		}
		if r, ok := x.houDead[key+" "+c.name]; ok && r {
			c.ok = false
		}
	}
	houInit := func() {
		as := append([]*Term{}, x.assumes...)
		x.houSeen[key] = true
		for _, c := range cands {
			x.houKnown[key+" "+c.name] = true
		}
		for _, c := range cands {
			if g := x.b.Imp(entry.cond, c.f(entry, zero)); c.ok && g.op != "true" {
				x.houChecks = append(x.houChecks, houCheck{key + " " + c.name, as, g})
			}
		}
	}
	houPass := func() {
		st := havoc()
		k := b.Fresh(kname, SInt)
		x.ks[no] = k
		assumeInv(st, k)
		x.heads = append(x.heads, st.clone())
		backs := body(st)
		x.heads = x.heads[:len(x.heads)-1]
		for _, c := range cands {
			if !c.ok {
				continue
			}
			for _, e := range backs {
				if g := b.Imp(e.st.cond, c.f(e.st, b.Add(k, b.Int(1)))); g.op != "true" {
					x.houChecks = append(x.houChecks, houCheck{key + " " + c.name, append([]*Term{}, x.assumes...), g})
				}
			}
		}
	}
	if x.hou > 0 {
		// part of the inference for an enclosing loop
		houInit()
		if x.con.Cuts[x.con.inContract(no)] {
			x.cut(entry)
		}
		houPass()
		return
	}
	if x.houDone[key] {
		for _, c := range cands {
			c.ok = c.ok && x.houKnown[key+" "+c.name]
		}
	} else {
		for round := 0; ; round++ {
			if round > 12 {
				for _, c := range cands {
					c.ok = false
				}
				break
			}
			na, no2 := x.assumes, len(x.obls)
			x.houChecks = nil
			x.houSeen = map[string]bool{}
			x.dry++
			x.hou++
			houInit()
			if x.con.Cuts[x.con.inContract(no)] {
				x.cut(entry)
			}
			houPass()
			x.dry--
			x.hou--
			x.assumes = na
			x.obls = x.obls[:no2]
			fr.regs = copyRegsOf(savedRegs)
			fr.rets = fr.rets[:savedRets]
			bad := x.w.quickMany(x, x.houChecks)
			if len(bad) == 0 {
				for n := range x.houSeen {
					x.houDone[n] = true
				}
				break
			}
			for n := range bad {
				x.houDead[n] = true
			}
			for _, c := range cands {
				c.ok = c.ok && !x.houDead[key+" "+c.name]
			}
		}
	}
	if x.con.Cuts[x.con.inContract(no)] {
		x.cut(entry)
	}
	if os.Getenv("GCV_DEBUG") != "" {
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "   %s loop %d cand %s %v\n", x.con.Name, no, c.name, c.ok)
		}
	}
	st := havoc()
	k := b.Fresh(kname, SInt)
	x.ks[no] = k
	assumeInv(st, k)
	head := st.clone()
	x.heads = append(x.heads, head)
	backs := body(st)
	x.heads = x.heads[:len(x.heads)-1]
	if len(x.con.Steps[no]) > 0 {
		if x.stepped == nil {
			x.stepped = map[int]bool{}
		}
		x.stepped[no] = true
		for _, e := range backs {
			for _, c := range x.con.Steps[no] {
				g := b.False()
				func() {
					defer func() {
						if r := recover(); r != nil {
							if se, is := r.(specErr); !is {
								panic(r)
							} else if os.Getenv("GCV_DEBUG") != "" {
								fmt.Fprintln(os.Stderr, "step clause", c.label(), se)
							}
						}
					}()
					env := x.localEnv(fr, e.st)
					env.pre, env.itst, env.k, env.r, env.iter = entry, head, k, x.rs[no], viter
					g = x.w.evalBool(env, c.E)
				}()
				na := len(x.assumes)
				x.oblige(e.st, "step", fmt.Sprintf("loop%d:%s", no, c.label()), pos, g)
				x.assumes = x.assumes[:na]
			}
		}
	}
	k1 := b.Add(k, b.Int(1))
	for _, e := range backs {
		for _, c := range invs {
			x.oblige(e.st, "inv-keep", fmt.Sprintf("loop%d:%s", no, c.label()), pos, evalInv(e.st, k1, c.E))
		}
	}
}

// boundCands: for loops whose header compares x < y (or similar), x <= y at the header is a candidate.
func (x *Exec) boundCands(fr *Frame, l *Loop, entry *State, mod map[string]bool) []func(*State) *Term {
	var out []func(*State) *Term
	b := x.b
	// integer cells modified: candidate c >= entry value, c <= bound for bounds = lens of cells / comparisons in header
	var cmps []*ssa.BinOp
	for _, blk := range fr.loops.rpo {
		if !l.blocks[blk] {
			continue
		}
		for _, in := range blk.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
					if bt, ok := bo.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
						cmps = append(cmps, bo)
					}
				}
			}
		}
		if blk == l.head {
			break
		}
	}
	for _, bo := range cmps {
		bo := bo
		// evaluate operands symbolically at an arbitrary state by re-executing the header prefix is complex;
		// instead resolve operand = load of cell, optionally + const, other operand = register defined outside the loop, or len(load cell), or const
		lhs, lc, ok1 := x.cellOperand(fr, l, bo.X)
		if !ok1 {
			continue
		}
		rhs := bo.Y
		rv := func(st *State) *Term {
			defer func() { recover() }()
			return x.operandAt(fr, l, st, rhs)
		}
		op := bo.Op
		_ = lc
		out = append(out, func(st *State) *Term {
			v := st.cells[lhs]
			if v == nil || len(v.L) != 1 {
				return b.True()
			}
			r := rv(st)
			if r == nil {
				return b.True()
			}
			switch op {
			case token.LSS, token.NEQ:
				return b.Le(b.Add(v.L[0], b.Int(lc)), b.Add(r, b.Int(lc)))
			case token.LEQ:
				return b.Le(v.L[0], b.Add(r, b.Int(1)))
			case token.GTR:
				return b.Le(r, v.L[0])
			case token.GEQ:
				return b.Le(b.Sub(r, b.Int(1)), v.L[0])
			}
			return b.True()
		})
		// range loops: the index cell starts at -1 and the comparison is on cell+1
		if lc == 1 {
			out = append(out, func(st *State) *Term {
				v := st.cells[lhs]
				r := rv(st)
				if v == nil || r == nil || len(v.L) != 1 {
					return b.True()
				}
				return b.Lt(v.L[0], b.Ite(b.Lt(b.Int(0), r), r, b.Int(0)))
			})
		}
	}
	return out
}

func (x *Exec) cellOperand(fr *Frame, l *Loop, v ssa.Value) (int, int64, bool) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if a, ok := v.X.(*ssa.Alloc); ok {
				if id, ok := fr.cellOf[a]; ok {
					return id, 0, true
				}
			}
		}
	case *ssa.BinOp:
		if c, ok := v.Y.(*ssa.Const); ok && v.Op == token.ADD && c.Value != nil && c.Value.Kind() == constant.Int {
			id, k, ok := x.cellOperand(fr, l, v.X)
			n, _ := constant.Int64Val(c.Value)
			return id, k + n, ok
		}
	}
	return 0, 0, false
}

// operandAt evaluates simple operands (constants, outside registers, loads of cells, len of those) at a state.
func (x *Exec) operandAt(fr *Frame, l *Loop, st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return x.val(fr, st, v).L[0]
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if a, ok := v.X.(*ssa.Alloc); ok {
				if id, ok := fr.cellOf[a]; ok && st.cells[id] != nil && len(st.cells[id].L) >= 1 {
					return st.cells[id].L[0]
				}
			}
		}
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if u, ok := v.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
				if a, ok := u.X.(*ssa.Alloc); ok {
					if id, ok := fr.cellOf[a]; ok && st.cells[id] != nil && len(st.cells[id].L) == 4 {
						return st.cells[id].L[2]
					}
				}
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					p := x.operandAt(fr, l, st, fa.X)
					if p != nil {
						ft := derefType(fa.X.Type())
						lv := x.load(st, x.fieldLoc(x.refLoc(ft, p), fa.Field))
						if len(lv.L) == 4 {
							return lv.L[2]
						}
					}
				}
			}
		}
	}
	if in, ok := v.(ssa.Instruction); ok && !l.blocks[in.Block()] {
		if r := fr.regs[v]; r != nil && len(r.L) == 1 {
			return r.L[0]
		}
	}
	if _, ok := v.(*ssa.Parameter); ok {
		if r := x.val(fr, st, v); len(r.L) == 1 {
			return r.L[0]
		}
	}
	return nil
}

func copyRegs(fr *Frame) map[ssa.Value]*Value { return copyRegsOf(fr.regs) }
func copyRegsOf(m map[ssa.Value]*Value) map[ssa.Value]*Value {
	n := make(map[ssa.Value]*Value, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func sameValue(a, b *Value) bool {
	if a == b {
		return true
	}
	if a.X != nil || b.X != nil {
		if la, ok := a.X.(*Loc); ok {
			if lb, ok := b.X.(*Loc); ok && *la == *lb {
				return true
			}
		}
		if a.X != b.X {
			if a.L == nil || b.L == nil {
				return false
			}
		}
	}
	if len(a.L) != len(b.L) {
		return false
	}
	for i := range a.L {
		if a.L[i] != b.L[i] {
			return false
		}
	}
	return true
}

func (x *Exec) cellHint(id int) string {
	if n := x.w.cellNames[id]; n != "" {
		return n
	}
	return "v"
}

// ---- function bodies

func (x *Exec) runFunc(fn *ssa.Function, args, binds []*Value, st *State, parent *Frame, site string) ([]retState, *Frame) {
	if len(fn.Blocks) == 0 {
		bail("no body and no contract for %s", fn)
	}
	if fn.Recover != nil {
		// defer with recover: treat normally; recover paths are not modelled
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]*Value{}, parent: parent, params: args, binds: binds, cellOf: map[*ssa.Alloc]int{}, iters: map[ssa.Value]*MapIter{}}
	if parent != nil {
		fr.path = parent.path + "/" + site
	}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.regs[p] = binds[i]
		}
	}
	fr.loops = x.w.loopInfo(fn)
	in := map[*ssa.BasicBlock][]edgeState{fn.Blocks[0]: {{nil, st}}}
	x.runRegion(fr, nil, in, nil)
	return fr.rets, fr
}

// inline executes fn and merges its return states into one.
func (x *Exec) inline(fn *ssa.Function, args, binds []*Value, st *State, parent *Frame, site string) (*State, *Value) {
	for f := parent; f != nil; f = f.parent {
		if f.fn == fn {
			bail("recursive call of %s without contract", fn)
		}
	}
	if strings.Count(parent.path, "/") > 14 {
		bail("inlining too deep at %s", fn)
	}
	x.inlined[x.w.fname(fn)] = true
	rets, fr := x.runFunc(fn, args, binds, st, parent, site)
	_ = fr
	var es []edgeState
	for _, r := range rets {
		es = append(es, edgeState{nil, r.st})
	}
	if len(es) == 0 {
		return nil, nil
	}
	out := x.merge(es)
	n := fn.Signature.Results().Len()
	if n == 0 {
		return out, &Value{T: fn.Signature.Results(), X: &Tuple{}}
	}
	var merged []*Value
	for i := 0; i < n; i++ {
		var conds []*Term
		var vals []*Value
		for _, r := range rets {
			conds = append(conds, r.st.cond)
			vals = append(vals, r.vals[i])
		}
		merged = append(merged, x.mergeValues(conds, vals))
	}
	if n == 1 {
		return out, merged[0]
	}
	return out, &Value{T: fn.Signature.Results(), X: &Tuple{merged}}
}

// val evaluates an SSA operand.
func (x *Exec) val(fr *Frame, st *State, v ssa.Value) *Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(v)
	case *ssa.Global:
		return &Value{T: v.Type(), X: x.globalLoc(v)}
	case *ssa.Function:
		return &Value{T: v.Type(), X: x.w.closureOf(v)}
	case *ssa.Builtin:
		return &Value{T: v.Type(), X: v}
	}
	r := fr.regs[v]
	if r == nil {
		bail("undefined register %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) globalLoc(g *ssa.Global) *Loc {
	t := derefType(g.Type())
	name := shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
	if isStruct(t) && len(leaves(t)) > 0 && !opaqueStruct(t) {
		// a heap object with a constant reference
		return x.refLoc(t, x.globalRef(name))
	}
	return &Loc{kind: "global", base: "G|" + name, typ: t}
}

func (x *Exec) globalRef(name string) *Term {
	t := x.b.Sym("gref|"+name, SInt)
	if !x.axDone["gref|"+name] {
		x.axDone["gref|"+name] = true
		a0 := x.comp(&State{comps: map[string]*Term{}}, "$alloc", SInt)
		x.axioms = append(x.axioms, x.b.Lt(x.b.Int(0), t), x.b.Lt(t, a0))
		for _, o := range x.w.grefs(x) {
			if o != t {
				x.axioms = append(x.axioms, x.b.Not(x.b.Eq(o, t)))
			}
		}
		x.w.grefList[x] = append(x.w.grefList[x], t)
	}
	return t
}

func (x *Exec) constant(c *ssa.Const) *Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return &Value{T: t, L: []*Term{x.b.Bool(constant.BoolVal(c.Value))}}
	case constant.String:
		return &Value{T: t, L: []*Term{x.b.StrLit(constant.StringVal(c.Value))}}
	case constant.Int:
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
			return &Value{T: t, L: []*Term{x.b.mk(c.Value.ExactString()+".0", SReal)}}
		}
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return &Value{T: t, L: []*Term{x.b.BigInt(n)}}
	case constant.Float:
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return &Value{T: t, L: []*Term{x.b.BigInt(n)}}
		}
		return &Value{T: t, L: []*Term{x.b.Fresh("float", SReal)}}
	}
	bail("constant %s", c)
	return nil
}
