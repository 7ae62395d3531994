package main

// Go types flattened into scalar leaves; symbolic values, locations and states.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Leaf struct {
	suf  string // suffix appended to the component name
	sort string
	typ  types.Type // Go type of the leaf (for well-formedness)
	kind byte       // 'r' ref, 'a','o','l','c' slice parts, 't','v' interface parts, 'i' int, 'b','s','f','x' opaque
}

type unsupported struct{ msg string }

func bail(format string, args ...any) { panic(unsupported{fmt.Sprintf(format, args...)}) }

func typeName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
	return s
}

func shortPkg(p string) string {
	const root = "github.com/mkobetic/coin"
	if p == root {
		return "coin"
	}
	if strings.HasPrefix(p, root+"/") {
		return p[len(root)+1:]
	}
	return p
}

// special struct types modelled by abstract leaves
var specialLeaves = map[string][]Leaf{
	"time.Time":       {{suf: "", sort: SInt, kind: 'i'}},
	"math/big.Int":    {{suf: ".v", sort: SInt, kind: 'i'}},
	"math/big.Rat":    {{suf: ".n", sort: SInt, kind: 'i'}, {suf: ".d", sort: SInt, kind: 'i'}},
	"strings.Builder": {{suf: ".s", sort: SStr, kind: 's'}},
	"bytes.Buffer":    {{suf: ".s", sort: SStr, kind: 's'}}, // written to only, then read as a whole
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), "github.com/mkobetic/coin")
}

func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	return !isRepoPkg(n.Obj().Pkg())
}

var leafCache = map[string][]Leaf{}
var leafMu sync.Mutex

func leaves(t types.Type) []Leaf {
	key := typeName(t)
	leafMu.Lock()
	l, ok := leafCache[key]
	leafMu.Unlock()
	if ok {
		return l
	}
	l = computeLeaves(t)
	leafMu.Lock()
	leafCache[key] = l
	leafMu.Unlock()
	return l
}

func computeLeaves(t types.Type) []Leaf {
	if sp, ok := specialLeaves[typeName(t)]; ok {
		return sp
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() == nil && strings.HasPrefix(n.Obj().Name(), "ghost.") {
		return []Leaf{{sort: ghostSort(n.Obj().Name()[6:]), kind: 'g'}}
	}
	if opaqueStruct(t) {
		return []Leaf{{suf: ".opaque", sort: SInt, typ: t, kind: 'x'}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{sort: SBool, typ: t, kind: 'b'}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{sort: SStr, typ: t, kind: 's'}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{sort: SReal, typ: t, kind: 'f'}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{sort: SInt, typ: t, kind: 'i'}}
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return []Leaf{{sort: SInt, typ: t, kind: 'r'}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{sort: SInt, typ: t, kind: 'r'}}
	case *types.Slice:
		return []Leaf{{"#a", SInt, t, 'a'}, {"#o", SInt, t, 'o'}, {"#l", SInt, t, 'l'}, {"#c", SInt, t, 'c'}}
	case *types.Interface:
		return []Leaf{{"#t", SInt, t, 't'}, {"#v", SInt, t, 'v'}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.suf, l.sort, l.typ, l.kind})
			}
		}
		return out
	case *types.Array:
		if u.Len() > 32 {
			bail("array too large: %s", t)
		}
		var out []Leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leaves(u.Elem()) {
				out = append(out, Leaf{fmt.Sprintf("[%d]%s", i, l.suf), l.sort, l.typ, l.kind})
			}
		}
		return out
	case *types.Tuple:
		return nil
	}
	bail("type %s not supported", t)
	return nil
}

// fieldRange gives the leaf offset and count of field i of struct type t.
func fieldRange(t types.Type, i int) (int, int) {
	st := t.Underlying().(*types.Struct)
	off := 0
	for j := 0; j < i; j++ {
		off += len(leaves(st.Field(j).Type()))
	}
	return off, len(leaves(st.Field(i).Type()))
}

// Value is a symbolic value: flattened leaves, or a special (location, closure, tuple, iterator).
type Value struct {
	T types.Type
	L []*Term
	X any
}

type Closure struct {
	fn       *ssa.Function
	bindings []*Value
}

type FuncChoice struct {
	cond *Term
	a, b *Value
}

type BoundMethod struct{}

type Tuple struct{ vs []*Value }

type MapIter struct {
	id  int // ghost visited-set cell name "$vis<id>"
	m   *Value
	mt  *types.Map
	dom *Term // domain at range start
}

// Loc is a memory location.
type Loc struct {
	kind string // "cell", "heap", "elem", "global"
	cell int
	off  int    // leaf offset within a cell
	base string // component base name for heap/elem/global
	ref  *Term
	idx  *Term
	typ  types.Type // type stored at the location
}

type State struct {
	cond  *Term
	comps map[string]*Term
	cells map[int]*Value
}

func (s *State) clone() *State {
	n := &State{cond: s.cond, comps: make(map[string]*Term, len(s.comps)), cells: make(map[int]*Value, len(s.cells))}
	for k, v := range s.comps {
		n.comps[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	bail("not a pointer: %s", t)
	return nil
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}
