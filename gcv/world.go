package main

// Loading of the real code and per-execution bookkeeping.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type big0 struct{}

func (*big0) exp2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// Program is the loaded, immutable part.
type Program struct {
	alias   map[*ssa.Function]string // functions known by the variable and field they are stored in
	prog    *ssa.Program
	repo    string
	specs   *SpecSet
	allPkgs []*types.Package
	byShort map[string]*types.Package
	fns     map[string]*ssa.Function
	fnOrder []string
	consts  map[*ssa.Global]*ssa.Function
	pkgs    []*packages.Package
	opts    *Options
}

type Options struct {
	rereading bool
	timeout   int
	keep      string
	verbose   bool
	jobs      int
	deadline  time.Time
	props     map[string]bool
}

// World is the per-execution view.
type World struct {
	*Program
	compInfos map[string]compInfo
	cellNames map[int]string
	grefList  map[*Exec][]*Term
	ghosts    map[string]string
	ghostTyp  map[string]types.Type
	pureTypes map[string]types.Type
	cellIDs   map[string]int
	iterIDs   map[string]int
	liCache   map[*ssa.Function]*LoopInfo
	quickN    int
}

var repoPkgs = []string{".", "check", "check/warn", "rex", "cmd/coin", "cmd/ofx2coin", "cmd/csv2coin", "cmd/gen2coin"}

func loadProgram(repo, contracts string) (*Program, error) {
	os.Setenv("GOFLAGS", "-mod=mod -buildvcs=false")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo,
		Dir:  repo,
	}
	var pats []string
	for _, p := range repoPkgs {
		if p == "." {
			pats = append(pats, repo)
		} else {
			pats = append(pats, filepath.Join(repo, p))
		}
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{prog: prog, repo: repo, byShort: map[string]*types.Package{}, fns: map[string]*ssa.Function{}, consts: map[*ssa.Global]*ssa.Function{}, pkgs: pkgs}
	seen := map[*types.Package]bool{}
	var addPkg func(p *types.Package)
	addPkg = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		pr.allPkgs = append(pr.allPkgs, p)
		pr.byShort[shortPkg(p.Path())] = p
		for _, i := range p.Imports() {
			addPkg(i)
		}
	}
	for _, p := range pkgs {
		addPkg(p.Types)
	}
	inRepo := map[*ssa.Package]bool{}
	for _, sp := range spkgs {
		if sp != nil {
			inRepo[sp] = true
		}
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		n := pr.fname(f)
		if old := pr.fns[n]; old != nil && len(old.Blocks) > 0 {
			continue
		}
		pr.fns[n] = f
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		n := pr.fname(f)
		pr.fns[n] = f
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for sp := range inRepo {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Pkg == sp && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	for n, f := range pr.fns {
		if f.Pkg != nil && inRepo[f.Pkg] && len(f.Blocks) > 0 {
			pr.fnOrder = append(pr.fnOrder, n)
		}
	}
	sort.Strings(pr.fnOrder)
	pr.findConstFuncs(inRepo)
	pr.nameFieldFuncs(inRepo)
	pr.specs = loadSpecs(contracts)
	return pr, nil
}

// findConstFuncs: package-level variables assigned exactly once, in init, to a known function.
func (pr *Program) findConstFuncs(in map[*ssa.Package]bool) {
	count := map[*ssa.Global]int{}
	val := map[*ssa.Global]*ssa.Function{}
	for _, n := range pr.fnOrder {
		f := pr.fns[n]
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				count[g]++
				v := st.Val
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				if fn, ok := v.(*ssa.Function); ok {
					val[g] = fn
				}
			}
		}
	}
	for g, f := range val {
		if count[g] == 1 {
			pr.consts[g] = f
		}
	}
}

// nameFieldFuncs: a function literal in the initial value of a package-level struct variable is known as
// pkg.variable.field, whatever its number in the package initialiser.
func (pr *Program) nameFieldFuncs(in map[*ssa.Package]bool) {
	pr.alias = map[*ssa.Function]string{}
	for sp := range in {
		f := sp.Func("init")
		if f == nil {
			continue
		}
		type fieldFn struct {
			field string
			fn    *ssa.Function
		}
		funcs := map[ssa.Value][]fieldFn{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					fn, ok := st.Val.(*ssa.Function)
					if !ok {
						continue
					}
					name := derefType(a.X.Type()).Underlying().(*types.Struct).Field(a.Field).Name()
					if g, ok := a.X.(*ssa.Global); ok {
						pr.nameField(g, name, fn)
					} else {
						funcs[a.X] = append(funcs[a.X], fieldFn{name, fn})
					}
				case *ssa.Global:
					if ld, ok := st.Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
						for _, ff := range funcs[ld.X] {
							pr.nameField(a, ff.field, ff.fn)
						}
					}
				}
			}
		}
	}
}

func (pr *Program) nameField(g *ssa.Global, field string, fn *ssa.Function) {
	n := shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name() + "." + field
	pr.fns[n] = fn
	pr.fnOrder = append(pr.fnOrder, n)
	if fn.Parent() != nil || strings.Contains(fn.Name(), "$") {
		pr.alias[fn] = n
	}
}

func (pr *Program) newWorld() *World {
	w := &World{Program: pr, compInfos: map[string]compInfo{}, cellNames: map[int]string{}, grefList: map[*Exec][]*Term{}, ghosts: map[string]string{"$out": SStr, "$werr": SBool},
		ghostTyp: map[string]types.Type{"$out": tString, "$werr": tBool}, pureTypes: map[string]types.Type{}, cellIDs: map[string]int{}, iterIDs: map[string]int{}, liCache: map[*ssa.Function]*LoopInfo{}}
	for n, t := range pr.specs.Ghosts {
		switch t {
		case "int":
			w.ghosts[n], w.ghostTyp[n] = SInt, tInt
		case "bool":
			w.ghosts[n], w.ghostTyp[n] = SBool, tBool
		case "string":
			w.ghosts[n], w.ghostTyp[n] = SStr, tString
		default:
			w.ghosts[n], w.ghostTyp[n] = ghostSort(t), ghostTypes[t]
		}
	}
	return w
}

func (w *World) grefs(x *Exec) []*Term { return w.grefList[x] }

func (pr *Program) fname(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if n := pr.alias[fn]; n != "" {
		return n
	}
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/mkobetic/coin/", "")
	s = strings.ReplaceAll(s, "github.com/mkobetic/coin.", "coin.")
	return s
}

func (w *World) loopInfo(fn *ssa.Function) *LoopInfo {
	if l := w.liCache[fn]; l != nil {
		return l
	}
	l := analyze(fn)
	w.liCache[fn] = l
	return l
}

func (w *World) closureOf(f *ssa.Function) *Closure { return &Closure{fn: f} }

func (w *World) constFunc(g *ssa.Global) *ssa.Function { return w.consts[g] }

// allocKind: "cell" when the variable is only loaded, stored, projected or captured by closures;
// "array" for backing arrays; "heap" otherwise.
func (w *World) allocKind(a *ssa.Alloc) string {
	t := derefType(a.Type())
	if at, ok := t.Underlying().(*types.Array); ok {
		if cellUses(a, map[ssa.Value]bool{}) && constIndexed(a) && at.Len() <= 32 {
			return "cell"
		}
		return "array"
	}
	if isStruct(t) && opaqueStruct(t) && specialLeaves[typeName(t)] == nil {
		return "heap"
	}
	if cellUses(a, map[ssa.Value]bool{}) {
		return "cell"
	}
	return "heap"
}

func constIndexed(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			if _, ok := r.Index.(*ssa.Const); !ok {
				return false
			}
		case *ssa.Slice:
			return false
		}
	}
	return true
}

func cellUses(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if r.Val == v {
				return false
			}
		case *ssa.FieldAddr:
			if !cellUses(r, seen) {
				return false
			}
		case *ssa.IndexAddr:
			if !cellUses(r, seen) {
				return false
			}
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, bnd := range r.Bindings {
				if bnd == v && !cellUses(fn.FreeVars[i], seen) {
					return false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (w *World) cellID(x *Exec, key, comment string) int {
	if id, ok := w.cellIDs[key]; ok {
		return id
	}
	id := len(w.cellIDs) + 1
	w.cellIDs[key] = id
	w.cellNames[id] = comment
	return id
}

func (w *World) iterID(x *Exec, key string) int {
	if id, ok := w.iterIDs[key]; ok {
		return id
	}
	id := len(w.iterIDs) + 1
	w.iterIDs[key] = id
	return id
}

func (w *World) typesPkg(short string) *types.Package {
	if p := w.byShort[short]; p != nil {
		return p
	}
	for k, p := range w.byShort {
		if strings.HasSuffix(k, "/"+short) && !strings.Contains(k, "internal") && !strings.HasPrefix(k, "cmd/") {
			return p
		}
	}
	return nil
}

// signatureOf finds the signature of a function or method by contract name.
func (w *World) signatureOf(name string) (*types.Signature, *types.Package) {
	if f := w.fns[name]; f != nil {
		var p *types.Package
		if f.Pkg != nil {
			p = f.Pkg.Pkg
		} else if f.Object() != nil {
			p = f.Object().Pkg()
		}
		return f.Signature, p
	}
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ")")
		rt := strings.TrimPrefix(name[1:i], "*")
		var t types.Type
		func() {
			defer func() { recover() }()
			t = w.resolveType(rt, nil)
		}()
		if t == nil {
			return nil, nil
		}
		m := name[i+2:]
		obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, typePkg(t), m)
		if obj == nil {
			obj, _, _ = types.LookupFieldOrMethod(t, true, typePkg(t), m)
		}
		if f, ok := obj.(*types.Func); ok {
			return f.Type().(*types.Signature), typePkg(t)
		}
		return nil, nil
	}
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil, nil
	}
	if p := w.typesPkg(name[:i]); p != nil {
		if f, ok := p.Scope().Lookup(name[i+1:]).(*types.Func); ok {
			return f.Type().(*types.Signature), p
		}
	}
	return nil, nil
}
