package main

// Calls: builtins, contracts, library semantics, inlining.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Boxed struct{ v *Value }

func unitValue() *Value { return &Value{T: types.NewTuple(), X: &Tuple{}} }

func (x *Exec) call(fr *Frame, st *State, cc *ssa.CallCommon, instr *ssa.Call, pos token.Pos) (*Value, bool) {
	if !pos.IsValid() {
		pos = cc.Pos()
	}
	site := "d"
	if instr != nil {
		site = fmt.Sprintf("b%d.%s", instr.Block().Index, instr.Name())
	}
	if cc.IsInvoke() {
		recv := x.val(fr, st, cc.Value)
		args := []*Value{recv}
		for _, a := range cc.Args {
			args = append(args, x.val(fr, st, a))
		}
		return x.invoke(fr, st, cc, recv, args, site, pos)
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		var args []*Value
		for _, a := range cc.Args {
			args = append(args, x.val(fr, st, a))
		}
		return x.builtin(fr, st, bi, args, cc, pos)
	}
	var args []*Value
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	fv := x.val(fr, st, cc.Value)
	return x.callValue(fr, st, fv, args, site, pos, cc.Signature())
}

func (x *Exec) callValue(fr *Frame, st *State, fv *Value, args []*Value, site string, pos token.Pos, sig *types.Signature) (*Value, bool) {
	switch c := fv.X.(type) {
	case *Closure:
		return x.callFn(fr, st, c.fn, args, c.bindings, site, pos)
	case *FuncChoice:
		s1, s2 := st.clone(), st.clone()
		s1.cond = x.b.And(st.cond, c.cond)
		s2.cond = x.b.And(st.cond, x.b.Not(c.cond))
		v1, ok1 := x.callValue(fr, s1, c.a, args, site+"T", pos, sig)
		v2, ok2 := x.callValue(fr, s2, c.b, args, site+"F", pos, sig)
		var es []edgeState
		var conds []*Term
		var vals []*Value
		if ok1 {
			es = append(es, edgeState{nil, s1})
			conds = append(conds, s1.cond)
			vals = append(vals, v1)
		}
		if ok2 {
			es = append(es, edgeState{nil, s2})
			conds = append(conds, s2.cond)
			vals = append(vals, v2)
		}
		if len(es) == 0 {
			return nil, false
		}
		*st = *x.merge(es)
		return x.mergeValues(conds, vals), true
	}
	// a function value of unknown body
	if x.con.opt("logcalls") { // the calls and their first arguments are recorded in $calls and $log
		x.libUsed["function-valued parameters leave the accounts alone"] = true
		if fv.L == nil {
			x.materialize(fv)
		}
		x.oblige(st, "nil", "call of nil function", pos, x.b.Not(x.b.Eq(fv.L[0], x.b.Int(0))))
		n := x.comp(st, "$calls", SInt)
		if args[0].L == nil {
			x.materialize(args[0])
		}
		st.comps["$log"] = x.b.Store(x.comp(st, "$log", arr(SInt, SInt)), n, args[0].L[0])
		st.comps["$calls"] = x.b.Add(n, x.b.Int(1))
		return unitValue(), true
	}
	if x.con.opt("purefuncs") {
		x.libUsed["function-valued parameters are pure"] = true
		if fv.L == nil {
			x.materialize(fv)
		}
		x.oblige(st, "nil", "call of nil function", pos, x.b.Not(x.b.Eq(fv.L[0], x.b.Int(0))))
		return x.applyOpaque(fv, sig, args), true
	}
	bail("call of unknown function value at %s", x.pos(pos))
	return nil, false
}

func (x *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, args, binds []*Value, site string, pos token.Pos) (*Value, bool) {
	if fn.Synthetic == "package initializer" && fn.Pkg != x.topFn.Pkg {
		x.libUsed["initialisation of imported packages does not touch this package's state"] = true
		return unitValue(), true
	}
	name := x.w.fname(fn)
	if bs := x.con.Before[name]; bs != nil {
		env := x.topEnv(st)
		for i, a := range args {
			env.vars[fmt.Sprintf("arg%d", i+1)] = a
		}
		for _, c := range bs {
			x.oblige(st, "before", name+":"+c.label(), pos, x.w.evalBool(env, c.E))
		}
	}
	if c := x.w.specs.Contracts[name]; c != nil && !c.opt("inline") {
		var pkg *types.Package
		if fn.Pkg != nil {
			pkg = fn.Pkg.Pkg
		} else if fn.Object() != nil {
			pkg = fn.Object().Pkg()
		}
		if w := c.Opts["walk"]; w != "" && x.con.opt("walks") {
			return x.walk(fr, st, c, w, fn.Signature, pkg, args, site, pos)
		}
		return x.applyContract(fr, st, c, fn.Signature, pkg, args, pos)
	}
	if h := libHandlers[name]; h != nil {
		x.libUsed[name] = true
		return h(x, fr, st, &libCall{name, fn, args, site, pos})
	}
	if len(fn.Blocks) > 0 {
		out, v := x.inline(fn, args, binds, st, fr, site)
		if out == nil {
			return nil, false
		}
		*st = *out
		return v, true
	}
	bail("no contract for %s (called at %s)", name, x.pos(pos))
	return nil, false
}

func ifaceName(t types.Type) string { return typeName(t) }

func (x *Exec) invoke(fr *Frame, st *State, cc *ssa.CallCommon, recv *Value, args []*Value, site string, pos token.Pos) (*Value, bool) {
	x.oblige(st, "nil", "method call on nil interface", pos, x.b.Not(x.b.Eq(recv.L[0], x.b.Int(0))))
	if recv.L[0].op == "int" {
		if t := x.typeByID[int(recv.L[0].val.Int64())]; t != nil {
			if fn := x.w.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); fn != nil {
				a := append([]*Value{x.unboxed(recv, t)}, args[1:]...)
				return x.callFn(fr, st, fn, a, nil, site, pos)
			}
		}
	}
	name := "(" + ifaceName(cc.Value.Type()) + ")." + cc.Method.Name()
	if c := x.w.specs.Contracts[name]; c != nil {
		return x.applyContract(fr, st, c, cc.Method.Type().(*types.Signature), cc.Method.Pkg(), args, pos)
	}
	if h := libHandlers[name]; h != nil {
		x.libUsed[name] = true
		return h(x, fr, st, &libCall{name, nil, args, site, pos})
	}
	bail("no contract for interface method %s (called at %s)", name, x.pos(pos))
	return nil, false
}

func (x *Exec) unboxed(v *Value, t types.Type) *Value {
	if bx, ok := v.X.(*Boxed); ok && types.Identical(bx.v.T, t) {
		return bx.v
	}
	return x.unbox(t, v.L[1])
}

func (x *Exec) builtin(fr *Frame, st *State, bi *ssa.Builtin, args []*Value, cc *ssa.CallCommon, pos token.Pos) (*Value, bool) {
	b := x.b
	switch bi.Name() {
	case "len":
		v := args[0]
		switch u := v.T.Underlying().(type) {
		case *types.Map:
			return one(tInt, x.mapLen(st, v)), true
		case *types.Slice:
			return one(tInt, v.L[2]), true
		case *types.Array:
			return one(tInt, b.Int(u.Len())), true
		case *types.Pointer:
			return one(tInt, b.Int(u.Elem().Underlying().(*types.Array).Len())), true
		}
		return one(tInt, x.slen(v.L[0])), true
	case "cap":
		return one(tInt, args[0].L[3]), true
	case "append":
		if len(args) == 1 {
			return args[0], true
		}
		return x.appendSlice(st, args[0], args[1]), true
	case "copy":
		return one(tInt, x.copySlice(st, args[0], args[1])), true
	case "delete":
		x.mapDelete(st, args[0], args[1])
		return unitValue(), true
	case "min", "max":
		r := args[0].L[0]
		for _, a := range args[1:] {
			if bi.Name() == "min" {
				r = b.Ite(b.Lt(a.L[0], r), a.L[0], r)
			} else {
				r = b.Ite(b.Lt(r, a.L[0]), a.L[0], r)
			}
		}
		return one(args[0].T, r), true
	case "ssa:wrapnilchk":
		x.oblige(st, "nil", "nil dereference", pos, b.Not(b.Eq(args[0].L[0], b.Int(0))))
		return args[0], true
	case "ssa:deferstack":
		return unitValue(), true
	case "print", "println":
		return unitValue(), true
	case "recover":
		return x.zero(types.Universe.Lookup("any").Type()), true
	}
	bail("builtin %s", bi.Name())
	return nil, false
}

// ---- contracts

type modTarget struct {
	comp string
	sort string
	ref  *Term // nil: every object, or a global
	glob bool
	leaf Leaf
}

func (env *Env) locOf(e *Expr) *Loc {
	x := env.x
	switch e.Op {
	case "deref":
		p := env.eval(e.Args[0])
		return x.refLoc(derefType(p.T), p.L[0])
	case "field":
		if a := e.Args[0]; a.Op == "ident" {
			if _, bound := env.vars[a.Name]; !bound {
				if env.pkg == nil || env.pkg.Scope().Lookup(a.Name) == nil {
					if p := x.w.typesPkg(a.Name); p != nil {
						if g, ok := x.w.prog.Package(p).Members[e.Name].(*ssa.Global); ok {
							return x.globalLoc(g)
						}
					}
				}
			}
		}
		v := env.eval(e.Args[0])
		var obj types.Object
		var path []int
		for _, p := range append([]*types.Package{typePkg(v.T)}, x.w.allPkgs...) {
			if obj, path, _ = types.LookupFieldOrMethod(v.T, true, p, e.Name); obj != nil {
				break
			}
		}
		if _, ok := obj.(*types.Var); !ok {
			serr(e, "no field %s in %s", e.Name, v.T)
		}
		cur := v
		var l *Loc
		for _, i := range path {
			if l != nil {
				if _, ok := l.typ.Underlying().(*types.Struct); ok {
					l = x.fieldLoc(l, i)
					continue
				}
				cur = env.load(l)
			}
			l = x.fieldLoc(x.refLoc(derefType(cur.T), cur.L[0]), i)
		}
		return l
	case "ident":
		if p := x.captured[e.Name]; p != nil {
			return x.refLoc(derefType(p.T), p.L[0])
		}
		if env.pkg != nil {
			if sp := x.w.prog.Package(env.pkg); sp != nil {
				if g, ok := sp.Members[e.Name].(*ssa.Global); ok {
					return x.globalLoc(g)
				}
			}
		}
	}
	serr(e, "not a location")
	return nil
}

func (x *Exec) locTargets(l *Loc) []modTarget {
	var out []modTarget
	names := x.locComps(l)
	for i, lf := range leaves(l.typ) {
		switch l.kind {
		case "heap":
			out = append(out, modTarget{comp: names[i], sort: arr(SInt, lf.sort), ref: l.ref, leaf: lf})
		case "elem":
			out = append(out, modTarget{comp: names[i], sort: arr(SInt, arr(SInt, lf.sort)), ref: l.ref, leaf: lf})
		case "global":
			out = append(out, modTarget{comp: names[i], sort: lf.sort, glob: true, leaf: lf})
		}
	}
	return out
}

func (env *Env) modTargets(e *Expr) []modTarget {
	x := env.x
	if e.Op == "call" {
		switch e.Name {
		case "bi":
			p := env.eval(e.Args[0])
			return x.locTargets(x.refLoc(x.w.resolveType("math/big.Int", nil), p.L[0]))
		case "rat":
			p := env.eval(e.Args[0])
			return x.locTargets(x.refLoc(x.w.resolveType("math/big.Rat", nil), p.L[0]))
		case "sbuf":
			p := env.eval(e.Args[0])
			return x.locTargets(x.refLoc(x.w.resolveType("strings.Builder", nil), p.L[0]))
		case "elems":
			s := env.eval(e.Args[0])
			return x.locTargets(x.elemLoc(s.T.Underlying().(*types.Slice).Elem(), s.L[0], x.b.Int(0)))
		case "map":
			m := env.eval(e.Args[0])
			return x.mapTargets(m.T.Underlying().(*types.Map), m.L[0])
		case "allmaps":
			t := x.w.resolveType(e.Args[0].Name, env.pkg)
			ts := x.mapTargets(t.Underlying().(*types.Map), nil)
			return ts
		case "all": // all("coin.Posting.Balance")
			n := e.Args[0].Name
			i := strings.LastIndex(n, ".")
			t := x.w.resolveType(n[:i], env.pkg)
			var out []modTarget
			su, ok := t.Underlying().(*types.Struct)
			if !ok {
				serr(e, "all of %s", n)
			}
			for j := 0; j < su.NumFields(); j++ {
				if su.Field(j).Name() == n[i+1:] || n[i+1:] == "*" {
					l := x.fieldLoc(x.refLoc(t, x.b.Int(0)), j)
					for _, mt := range x.locTargets(l) {
						mt.ref = nil
						out = append(out, mt)
					}
				}
			}
			if out == nil {
				serr(e, "no field %s", n)
			}
			return out
		case "allof": // allof("math/big.Int"), every object of the type
			t := x.w.resolveType(e.Args[0].Name, env.pkg)
			var out []modTarget
			for _, mt := range x.locTargets(x.refLoc(t, x.b.Int(0))) {
				mt.ref = nil
				out = append(out, mt)
			}
			return out
		case "allelems":
			t := x.w.resolveType(e.Args[0].Name, env.pkg)
			var out []modTarget
			for _, mt := range x.locTargets(x.elemLoc(t, x.b.Int(0), x.b.Int(0))) {
				mt.ref = nil
				out = append(out, mt)
			}
			return out
		}
	}
	if e.Op == "index" && e.Args[0].Op == "ident" && strings.HasPrefix(e.Args[0].Name, "$") { // $ghost[object]
		s, ok := x.w.ghosts[e.Args[0].Name]
		if !ok || !strings.HasPrefix(s, "(Array ") {
			serr(e, "no ghost array %s", e.Args[0].Name)
		}
		return []modTarget{{comp: e.Args[0].Name, sort: s, ref: env.eval(e.Args[1]).L[0]}}
	}
	if e.Op == "ident" && strings.HasPrefix(e.Name, "$") {
		s, ok := x.w.ghosts[e.Name]
		if !ok {
			serr(e, "unknown ghost %s", e.Name)
		}
		return []modTarget{{comp: e.Name, sort: s, glob: true}}
	}
	return x.locTargets(env.locOf(e))
}

func (x *Exec) mapTargets(mt *types.Map, ref *Term) []modTarget {
	d, vs, l := x.mapComps(mt)
	ks := x.keySort(mt)
	out := []modTarget{{comp: d, sort: arr(SInt, arr(ks, SBool)), ref: ref, leaf: Leaf{sort: SBool, kind: 'b'}},
		{comp: l, sort: arr(SInt, SInt), ref: ref, leaf: Leaf{sort: SInt, kind: 'l'}}}
	for i, lf := range leaves(mt.Elem()) {
		out = append(out, modTarget{comp: vs[i], sort: arr(SInt, arr(ks, lf.sort)), ref: ref, leaf: lf})
	}
	return out
}

func (x *Exec) contractEnv(c *Contract, st *State, sig *types.Signature, pkg *types.Package, args []*Value) *Env {
	env := &Env{x: x, st: st, old: st, vars: map[string]*Value{}, pkg: pkg}
	for i, n := range c.Params {
		if i >= len(args) {
			panic(specErr{c.Line + ": too many parameters in contract of " + c.Name})
		}
		env.vars[n] = args[i]
	}
	if len(c.Params) < len(args) {
		panic(specErr{c.Line + ": too few parameters in contract of " + c.Name})
	}
	return env
}

func (c *Contract) resultName(i, n int) string {
	if i < len(c.Results) {
		return c.Results[i]
	}
	if n == 1 {
		return "result"
	}
	return fmt.Sprintf("result%d", i)
}

// walk treats the call of a function that calls its last argument, a closure of known body, once for each element of a
// sequence w(ref(a), 0..size(ref(a))-1) of its first argument as the loop over that sequence. That the function makes exactly
// these calls is what its own contract proves, provided the closure leaves alone what the sequence depends on (checked here).
func (x *Exec) walk(fr *Frame, st *State, c *Contract, w string, sig *types.Signature, pkg *types.Package, args []*Value, site string, pos token.Pos) (*Value, bool) {
	b := x.b
	cl, ok := args[len(args)-1].X.(*Closure)
	if !ok || len(cl.fn.Blocks) == 0 {
		bail("walk with a function of unknown body at %s", x.pos(pos))
	}
	before := st.clone()
	if _, ok := x.applyContract(fr, st, c, sig, pkg, args, pos); !ok {
		return nil, false
	}
	for _, m := range c.Modifies { // the record of the calls is the contract's own
		for _, t := range x.contractEnv(c, before, sig, pkg, args).modTargets(m) {
			if o := before.comps[t.comp]; o != nil {
				st.comps[t.comp] = o
			} else {
				delete(st.comps, t.comp)
			}
		}
	}
	no := x.loopNo(fr, "w"+site)
	entry := st.clone()
	env := x.contractEnv(c, entry, sig, pkg, args)
	env.old = entry
	root := args[0].L[0]
	size := b.Fun("size", SInt, root)
	if u := x.w.specs.UFuns["size"]; u == nil || x.w.specs.UFuns[w] == nil {
		bail("walk %s is not declared", w)
	}
	var exit *State
	x.loopCommon(fr, no, pos, entry, nil, func(h *State) []edgeState {
		k := x.ks[no]
		exit = h.clone()
		exit.cond = b.And(h.cond, b.Eq(k, size))
		it := h.clone()
		it.cond = b.And(h.cond, b.Lt(k, size))
		el := b.Fun(w, SInt, root, k)
		out, _ := x.inline(cl.fn, []*Value{{T: args[0].T, L: []*Term{el}}}, cl.bindings, it, fr, site+"w")
		if out == nil {
			return nil
		}
		return []edgeState{{nil, out}}
	}, nil)
	for m := range x.modCache[fmt.Sprintf("%s@L%d", fr.path, no)] {
		for _, t := range strings.Fields(c.Opts["keep"]) {
			if strings.HasPrefix(m, "c:"+t) {
				bail("the callback changes %s at %s", t, x.pos(pos))
			}
		}
	}
	*st = *exit
	return unitValue(), true
}

func (x *Exec) applyContract(fr *Frame, st *State, c *Contract, sig *types.Signature, pkg *types.Package, args []*Value, pos token.Pos) (*Value, bool) {
	b := x.b
	x.used[c.Name] = true
	for _, a := range args {
		if a.L == nil {
			if _, ok := a.X.(*Tuple); !ok {
				if l, ok := a.X.(*Loc); ok && !(l.kind == "heap" && (l.base == "F|"+structKey(l.typ)+"|" || l.base == "P|"+typeName(l.typ)+"|")) {
					if !c.opt("anyargs") {
						bail("address of %s passed to %s", l.typ, c.Name)
					}
					a.L = []*Term{b.Fresh("addr", SInt)}
					continue
				} else if ok {
					a.L = []*Term{l.ref}
					continue
				}
				x.materialize(a)
			}
		}
	}
	restore := x.writesTo(st, c, args)
	pre := st.clone()
	env := x.contractEnv(c, pre, sig, pkg, args)
	if c.opt("noreturn") {
		x.atExit(fr, st, "exit", pos)
		return nil, false
	}
	if x.con.opt("files") && !c.opt("files") && isRepoPkg(pkg) {
		for _, m := range c.Modifies {
			if m.Op == "ident" && m.Name == "$out" {
				bail("%s writes, but its contract does not tell to what", c.Name)
			}
		}
	}
	assume := false
	for _, n := range strings.Split(x.con.Opts["assumepre"], ",") {
		if n == c.Name {
			assume = true
			x.libUsed["assumed at the calls in "+x.con.Name+": the preconditions of "+n] = true
		}
	}
	for _, r := range c.Requires {
		if assume {
			x.assume(st, x.w.evalBool(env, r.E))
			continue
		}
		x.oblige(st, "pre", c.Name+":"+r.label(), pos, x.w.evalBool(env, r.E))
	}
	if isRepoPkg(pkg) && !c.opt("noinv") {
		x.invariants(st, c.Name, pos)
	}
	// a callee that may end the program does so here, under its conditions
	if len(c.Exits) > 0 && len(x.con.Exits) > 0 {
		es := st.clone()
		for _, e := range c.Exits {
			es.cond = b.And(es.cond, x.w.evalBool(env, e.E))
		}
		x.atExit(fr, es, "exit", pos)
	} else if len(x.con.Exits) > 0 && isRepoPkg(pkg) && os.Getenv("GCV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s calls %s, which has no exits clause\n", x.con.Name, c.Name)
	}
	// frame
	if !c.opt("pure") && !c.opt("noalloc") {
		na := b.Fresh("alloc", SInt)
		x.assume(st, b.Le(x.alloc(pre), na))
		st.comps["$alloc"] = na
	}
	lim := x.alloc(st)
	for _, m := range c.Modifies {
		for _, t := range env.modTargets(m) {
			cur := x.comp(st, t.comp, t.sort)
			if t.ref == nil {
				nt := b.Fresh(t.comp, t.sort)
				st.comps[t.comp] = nt
				if !t.glob {
					x.wfComp(nt, t.comp, lim, nil)
				} else if t.leaf.kind != 0 {
					x.assume(st, x.wfLeaf(t.leaf, nt, lim))
				}
				continue
			}
			_, vs := arrParts(t.sort)
			nv := b.Fresh(t.comp, vs)
			st.comps[t.comp] = b.Store(cur, t.ref, nv)
			if strings.HasPrefix(vs, "(Array ") {
				ks, _ := arrParts(vs)
				i := b.BV("i", ks)
				s := b.Select(nv, i)
				w := x.wfLeaf(t.leaf, s, lim)
				if w.op != "true" {
					x.assume(st, b.Forall([]*Term{i}, w, []*Term{s}))
				}
			} else if t.leaf.kind != 0 {
				x.assume(st, x.wfLeaf(t.leaf, nv, lim))
			}
		}
	}
	// results
	post := &Env{x: x, st: st, old: pre, vars: map[string]*Value{}, pkg: pkg}
	for k, v := range env.vars {
		post.vars[k] = v
	}
	n := sig.Results().Len()
	var results []*Value
	defined := map[*Clause]bool{}
	for i := 0; i < n; i++ {
		rt := sig.Results().At(i).Type()
		var v *Value
		rn := c.resultName(i, n)
		if c.opt("pure") {
			var ts []*Term
			for j, a := range args {
				if len(a.L) == 4 {
					if _, ok := a.T.Underlying().(*types.Slice); ok {
						if j == len(args)-1 && sig.Variadic() && a.L[2].op == "int" {
							et := a.T.Underlying().(*types.Slice).Elem()
							for q := int64(0); q < a.L[2].val.Int64(); q++ {
								ev := x.load(pre, x.elemLoc(et, a.L[0], x.at(a.L[1], b.Int(q))))
								ts = append(ts, ev.L...)
							}
							continue
						}
						bail("pure function %s on a slice", c.Name)
					}
				}
				ts = append(ts, a.L...)
			}
			nm := c.Name
			if sig.Variadic() {
				nm = fmt.Sprintf("%s/%d", nm, len(ts))
			}
			v = x.pureResult(nm, i, rt, ts)
		}
		if v == nil {
			for _, e := range c.Ensures {
				if e.E.Op == "bin" && (e.E.Name == "==" || e.E.Name == "<==>") && e.E.Args[0].Op == "ident" && e.E.Args[0].Name == rn {
					ok := true
					e.E.Args[1].walk(func(q *Expr) {
						if q.Op == "ident" {
							for j := i; j < n; j++ {
								if q.Name == c.resultName(j, n) {
									ok = false
								}
							}
						}
					})
					if !ok {
						continue
					}
					d := post.eval(e.E.Args[1])
					if d.T == tNil {
						d = x.zero(rt)
					}
					if len(d.L) == len(leaves(rt)) {
						same := true
						for q, lf := range leaves(rt) {
							if d.L[q].sort != lf.sort {
								same = false
							}
						}
						if same {
							v = &Value{T: rt, L: d.L}
							defined[e] = true
							break
						}
					}
				}
			}
		}
		if v == nil {
			v = x.freshValue("r."+shortFn(c.Name), rt)
		}
		x.assume(st, x.wfValue(v, lim))
		results = append(results, v)
		post.vars[rn] = v
	}
	for _, e := range c.Ensures {
		if defined[e] {
			continue
		}
		x.assume(st, x.w.evalBool(post, e.E))
	}
	if c.Name == "regexp.MustCompile" {
		if src, ok := x.b.litOf(args[0].L[0]); ok {
			if re, err := syntax.Parse(src, syntax.Perl); err == nil {
				x.assume(st, x.b.Eq(x.b.Fun("rxgroups", SInt, args[0].L[0]), x.b.Int(int64(re.MaxCap()))))
			}
		}
	}
	for _, e := range c.Effects {
		st.comps[e.Args[0].Name] = post.eval(e.Args[1]).L[0]
	}
	if restore != nil {
		restore()
	}
	if isRepoPkg(pkg) && len(c.Modifies) > 0 && !c.opt("noinv") {
		for _, iv := range x.invs() {
			if iv.Pkg != "coin" && shortPkg(pkg.Path()) != iv.Pkg {
				continue // not re-established by functions of other packages
			}
			g := x.evalInv(iv, st)
			x.assume(st, g)
			x.invAx[x.b.Imp(st.cond, g)] = true
		}
	}
	switch n {
	case 0:
		return unitValue(), true
	case 1:
		return results[0], true
	}
	return &Value{T: sig.Results(), X: &Tuple{results}}, true
}

// writesTo: a callee whose contract tells what it writes to the writer it is given ($out) writes it to the builder that is
// the argument, which is the ghost output during the call. Builders accept every write.
func (x *Exec) writesTo(st *State, c *Contract, args []*Value) func() {
	writes := false
	for _, m := range c.Modifies {
		writes = writes || m.Op == "ident" && m.Name == "$out"
	}
	var p *Value
	for _, w := range args {
		if _, ok := w.T.Underlying().(*types.Interface); ok && w.L != nil && w.L[0].op == "int" {
			if t := x.typeByID[int(w.L[0].val.Int64())]; t != nil && (typeName(t) == "*strings.Builder" || typeName(t) == "*bytes.Buffer") {
				if p != nil {
					bail("%s is given two writers", c.Name)
				}
				p = x.unboxed(w, t)
			}
		}
	}
	if !writes || p == nil {
		return nil
	}
	out, bad := x.comp(st, "$out", SStr), x.comp(st, "$werr", SBool)
	l := x.builderLoc(p)
	cur := x.load(st, l)
	st.comps["$out"], st.comps["$werr"] = cur.L[0], x.b.False()
	return func() {
		x.assume(st, x.b.Not(x.comp(st, "$werr", SBool)))
		x.store(st, l, &Value{T: cur.T, L: []*Term{x.comp(st, "$out", SStr)}})
		st.comps["$out"], st.comps["$werr"] = out, bad
	}
}

func shortFn(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

// invs: the package invariants that functions of this package may assume and must keep. Those of a command concern
// variables no other package can reach.
func (x *Exec) invs() []*Axiom {
	var out []*Axiom
	for _, iv := range x.w.specs.Invs {
		if iv.Pkg == "coin" || x.pkg != nil && shortPkg(x.pkg.Path()) == iv.Pkg {
			out = append(out, iv)
		}
	}
	return out
}

func (x *Exec) evalInv(iv *Axiom, st *State) *Term {
	env := &Env{x: x, st: st, old: st, vars: map[string]*Value{}, pkg: x.w.typesPkg(iv.Pkg)}
	return x.w.evalBool(env, iv.E)
}

// invariants: the global invariants hold here (checked only when something they read has changed).
func (x *Exec) invariants(st *State, where string, pos token.Pos) {
	if x.con.opt("noinv") {
		return
	}
	for i, iv := range x.invs() {
		g := x.evalInv(iv, st)
		// bound variables are renamed on every evaluation: compare up to the state components read
		if x.sameReads(iv, st) {
			continue
		}
		_ = i
		x.oblige(st, "inv", iv.Label+" at "+where, pos, g)
	}
}

// sameReads: no component read by the invariant differs from the entry state.
func (x *Exec) sameReads(iv *Axiom, st *State) bool {
	env := x.invReads[iv]
	for n := range env {
		if n == "$alloc" {
			continue
		}
		if t, ok := st.comps[n]; ok && t != x.entry[n] {
			return false
		}
	}
	return true
}

// ---- verification of one function

func (pr *Program) newExec(con *Contract) *Exec {
	x := &Exec{b: NewTB(), w: pr.newWorld(), con: con, entry: map[string]*Term{}, loopOrd: map[string]int{}, modCache: map[string]map[string]bool{}, modDone: map[string]bool{}, counters: map[string]map[int]*Term{},
		houDead: map[string]bool{}, houDone: map[string]bool{}, houKnown: map[string]bool{}, houSeen: map[string]bool{},
		used: map[string]bool{}, inlined: map[string]bool{}, libUsed: map[string]bool{}, typeIDs: map[string]int{}, typeByID: map[int]types.Type{},
		oblN: map[string]int{}, closures: map[int]*Value{}, closIDs: map[string]int{}, axDone: map[string]bool{}, wfDone: map[string]bool{}, callN: map[string]int{},
		usedUF: map[string]bool{}, captured: map[string]*Value{}, named2: map[string]bool{}, sumArr: map[*Term]*Term{}, sumBody: map[*Term]func(*Term) *Term{}}
	return x
}

type FnResult struct {
	Name    string
	Cover   string
	Bail    string
	Obls    []*Obl
	Used    []string
	Inlined []string
	Lib     []string
	x       *Exec
}

func (pr *Program) verifyFunc(con *Contract) (res *FnResult) {
	x := pr.newExec(con)
	res = &FnResult{Name: con.Name, x: x}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				res.Bail = r.msg
			case specErr:
				res.Bail = "contract error: " + r.msg
			default:
				if os.Getenv("GCV_DEBUG") != "" {
					panic(r)
				}
				res.Bail = fmt.Sprint("internal: ", r)
			}
		}
		res.Obls = x.obls
		for k := range x.used {
			res.Used = append(res.Used, k)
		}
		for k := range x.inlined {
			res.Inlined = append(res.Inlined, k)
		}
		for k := range x.libUsed {
			res.Lib = append(res.Lib, k)
		}
	}()
	fn := pr.fns[con.Name]
	if fn == nil || len(fn.Blocks) == 0 {
		res.Bail = "function " + con.Name + " does not exist in the current source"
		return
	}
	x.run(fn)
	return
}

func (x *Exec) run(fn *ssa.Function) {
	b := x.b
	con := x.con
	x.topFn = fn
	if fn.Pkg != nil {
		x.pkg = fn.Pkg.Pkg
	} else if fn.Parent() != nil {
		p := fn.Parent()
		for p.Parent() != nil {
			p = p.Parent()
		}
		x.pkg = p.Pkg.Pkg
	}
	st := &State{cond: b.True(), comps: map[string]*Term{}, cells: map[int]*Value{}}
	a0 := x.alloc(st)
	x.axioms = append(x.axioms, b.Lt(b.Int(0), a0))
	for i, p := range fn.Params {
		nm := p.Name()
		if i < len(con.Params) {
			nm = con.Params[i]
		}
		v := &Value{T: p.Type()}
		for _, l := range leaves(p.Type()) {
			v.L = append(v.L, b.Sym(nm+l.suf+"$", l.sort))
		}
		x.fact(x.wfValue(v, a0))
		x.params = append(x.params, v)
	}
	if len(con.Params) != len(fn.Params) {
		panic(specErr{fmt.Sprintf("%s: contract of %s has %d parameters, the function has %d", con.Line, con.Name, len(con.Params), len(fn.Params))})
	}
	var binds []*Value
	for _, fv := range fn.FreeVars { // closures: captured variables are arbitrary
		v := &Value{T: fv.Type(), L: []*Term{b.Sym("fv."+fv.Name(), SInt)}}
		x.fact(b.And(b.Lt(b.Int(0), v.L[0]), b.Lt(v.L[0], a0)))
		binds = append(binds, v)
	}
	for i, p := range binds { // which are different variables
		for j := 0; j < i; j++ {
			if types.Identical(p.T, binds[j].T) {
				x.fact(b.Not(b.Eq(p.L[0], binds[j].L[0])))
			}
		}
		if n := x.capturedParam(fn, i); n >= 0 && n < len(con.Captures) {
			x.captured[con.Captures[n]] = p
		}
	}
	x.entrySt = st.clone()
	env := x.topEnv(st)
	x.invReads = map[*Axiom]map[string]bool{}
	x.invAx = map[*Term]bool{}
	if !con.opt("noinv") {
		for _, iv := range x.invs() {
			g := x.evalInv(iv, st)
			x.axioms = append(x.axioms, g)
			x.invAx[g] = true
			rd := map[string]bool{}
			seen := map[*Term]bool{}
			var f func(t *Term)
			f = func(t *Term) {
				if seen[t] {
					return
				}
				seen[t] = true
				if t.sym && strings.HasSuffix(t.op, "@0") {
					rd[strings.TrimSuffix(t.op, "@0")] = true
				}
				for _, a := range t.args {
					f(a)
				}
			}
			f(g)
			x.invReads[iv] = rd
		}
	}
	for _, r := range con.Requires {
		x.fact(x.w.evalBool(env, r.E))
	}
	for _, u := range con.Uses {
		x.fact(x.w.evalBool(env, u))
	}
	x.premises = len(x.assumes)
	st.cond = b.True()
	rets, top := x.runFunc(fn, x.params, binds, st, nil, "")
	n := fn.Signature.Results().Len()
	retConds := []*Term{}
	for ri, r := range rets {
		env := x.topEnv(r.st)
		for i := 0; i < n; i++ {
			if r.vals[i].L == nil {
				if _, ok := r.vals[i].X.(*Tuple); !ok {
					x.materialize(r.vals[i])
				}
			}
			env.vars[con.resultName(i, n)] = r.vals[i]
		}
		retConds = append(retConds, r.st.cond)
		for _, e := range con.Ensures {
			x.oblige(r.st, "post", fmt.Sprintf("%s@ret%d", e.label(), ri+1), token.NoPos, x.w.evalBool(env, e.E))
		}
		// what is not for callers may name local variables
		env.fr = top
		for _, e := range con.Proves {
			g := b.False() // a local it names is gone
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(specErr); !is {
							panic(r)
						}
					}
				}()
				g = x.w.evalBool(env, e.E)
			}()
			x.oblige(r.st, "post", fmt.Sprintf("%s@ret%d", e.label(), ri+1), token.NoPos, g)
		}
		x.frame(r.st, ri)
		x.invariants(r.st, fmt.Sprintf("ret%d", ri+1), token.NoPos)
	}
	for n, cs := range con.Steps {
		if !x.stepped[n] {
			for _, c := range cs {
				x.oblige(x.entrySt, "step", fmt.Sprintf("loop%d:%s (no such loop)", n, c.label()), token.NoPos, b.False())
			}
		}
	}
	x.retCond = b.Or(retConds...)
	if len(rets) == 0 {
		x.retCond = b.False()
	}
}

// capturedParam is the number of the enclosing function's parameter that free variable i of fn holds, -1 for other variables.
func (x *Exec) capturedParam(fn *ssa.Function, i int) int {
	if fn.Parent() == nil {
		return -1
	}
	for _, blk := range fn.Parent().Blocks {
		for _, in := range blk.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			for _, ref := range *mc.Bindings[i].Referrers() {
				st, ok := ref.(*ssa.Store)
				if !ok || st.Addr != mc.Bindings[i] {
					continue
				}
				for n, p := range fn.Parent().Params {
					if st.Val == p {
						return n
					}
				}
			}
		}
	}
	return -1
}

// perObject: a ghost variable with an entry for each object
func perObject(t types.Type) bool {
	return t != nil && (t == ghostTypes["Texts"] || t == ghostTypes["Flags"] || t == ghostTypes["Nums"])
}

// frame: objects existing at entry are changed only where the contract says.
func (x *Exec) frame(st *State, ri int) {
	b := x.b
	if x.con.opt("noframe") {
		return
	}
	env := x.topEnv(x.entrySt)
	allowed := map[string][]modTarget{}
	for _, m := range x.con.Modifies {
		for _, t := range env.modTargets(m) {
			allowed[t.comp] = append(allowed[t.comp], t)
		}
	}
	a0 := x.comp(x.entrySt, "$alloc", SInt)
	for _, n := range sortedKeys(st.comps) {
		cur := st.comps[n]
		if n == "$alloc" || strings.HasPrefix(n, visPrefix) {
			continue
		}
		old := x.entry[n]
		if old == nil || old == cur {
			continue
		}
		any := false
		var refs []*Term
		for _, t := range allowed[n] {
			if t.ref == nil {
				any = true
			} else {
				refs = append(refs, t.ref)
			}
		}
		if any {
			continue
		}
		ci, ok := x.w.compInfos[n]
		if !perObject(x.w.ghostTyp[n]) && (!ok || ci.glob || !strings.HasPrefix(cur.sort, "(Array ") || strings.HasPrefix(n, "$")) {
			x.oblige(st, "frame", n+fmt.Sprintf("@ret%d", ri+1), token.NoPos, b.Eq(cur, old))
			continue
		}
		r := b.Fresh("fr", SInt)
		g := []*Term{b.Lt(b.Int(0), r), b.Lt(r, a0)}
		for _, q := range refs {
			g = append(g, b.Not(b.Eq(r, q)))
		}
		x.oblige(st, "frame", n+fmt.Sprintf("@ret%d", ri+1), token.NoPos, b.Imp(b.And(g...), b.Eq(b.Select(cur, r), b.Select(old, r))))
	}
}
