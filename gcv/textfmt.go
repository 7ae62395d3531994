package main

// Formatting: literal formats are split into verbs; strings, integers and amounts get
// functional meanings (itoa, padding, amount text), anything else an unconstrained text.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	libHandlers["fmt.Sprintf"] = func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
		return one(tString, x.fmtText(st, c.args[0].L[0], x.varargs(st, c.args[1]), 0)), true
	}
	libHandlers["fmt.Fprintf"] = func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
		return x.emit(st, c.args[0], x.fmtText(st, c.args[1].L[0], x.varargs(st, c.args[2]), 0), c)
	}
	libHandlers["fmt.Fprintln"] = func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
		t := x.b.StrLit("")
		as := x.varargs(st, c.args[1])
		if as == nil {
			t = x.b.Fresh("text", SStr)
		}
		for i, a := range as {
			if i > 0 {
				t = x.sconcat(t, x.b.StrLit(" "))
			}
			t = x.sconcat(t, x.verbText(st, "", nil, 'v', a))
		}
		return x.emit(st, c.args[0], x.sconcat(t, x.b.StrLit("\n")), c)
	}
	libHandlers["fmt.Fprint"] = func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
		return x.emit(st, c.args[0], x.printText(st, x.varargs(st, c.args[1])), c)
	}
	libHandlers["fmt.Sprint"] = func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
		return one(tString, x.printText(st, x.varargs(st, c.args[0]))), true
	}
	libHandlers["io.WriteString"] = func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
		return x.emit(st, c.args[0], c.args[1].L[0], c)
	}
	libHandlers["(*strings.Builder).WriteString"] = func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
		x.emitBuilder(st, c.args[0], c.args[1].L[0])
		return &Value{T: c.fn.Signature.Results(), X: &Tuple{[]*Value{one(tInt, x.slen(c.args[1].L[0])), x.zero(c.fn.Signature.Results().At(1).Type())}}}, true
	}
	libHandlers["(*strings.Builder).String"] = func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
		return one(tString, x.load(st, x.builderLoc(c.args[0])).L[0]), true
	}
	libHandlers["(*bytes.Buffer).Write"] = func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
		p := c.args[1]
		x.emitBuilder(st, c.args[0], x.b.Fun("bytes2str", SStr, x.bytesContent(st, p), p.L[1], p.L[2]))
		return &Value{T: c.fn.Signature.Results(), X: &Tuple{[]*Value{one(tInt, p.L[2]), x.zero(c.fn.Signature.Results().At(1).Type())}}}, true
	}
	libHandlers["(*bytes.Buffer).Bytes"] = func(x *Exec, fr *Frame, st *State, c *libCall) (*Value, bool) {
		lim := x.comp(st, "$alloc", SInt)
		v := x.freshValue("bytes", c.fn.Signature.Results().At(0).Type())
		s := x.load(st, x.builderLoc(c.args[0])).L[0]
		x.assume(st, x.wfValue(v, lim))
		x.assume(st, x.b.Eq(x.b.Fun("bytes2str", SStr, x.bytesContent(st, v), v.L[1], v.L[2]), s))
		x.assume(st, x.b.Eq(v.L[2], x.slen(s)))
		return v, true
	}
}

// builderLoc is the location of the builder p points to (possibly a local variable).
func (x *Exec) builderLoc(p *Value) *Loc {
	if l, ok := p.X.(*Loc); ok && p.L == nil {
		return l
	}
	return x.refLoc(derefType(p.T), p.L[0])
}

func (x *Exec) emitBuilder(st *State, p *Value, text *Term) {
	l := x.builderLoc(p)
	cur := x.load(st, l)
	x.store(st, l, &Value{T: cur.T, L: []*Term{x.sconcat(cur.L[0], text)}})
}

// emit writes text to an io.Writer: a builder whose identity is known, or the ghost output.
func (x *Exec) emit(st *State, w *Value, text *Term, c *libCall) (*Value, bool) {
	res := c.fn.Signature.Results()
	if w.L != nil && w.L[0].op == "int" {
		if t := x.typeByID[int(w.L[0].val.Int64())]; t != nil && (typeName(t) == "*strings.Builder" || typeName(t) == "*bytes.Buffer") {
			p := x.unboxed(w, t)
			x.emitBuilder(st, p, text)
			return &Value{T: res, X: &Tuple{[]*Value{one(tInt, x.slen(text)), x.zero(res.At(1).Type())}}}, true
		}
	}
	x.oblige(st, "nil", "write to nil writer", c.pos, x.b.Not(x.b.Eq(w.L[0], x.b.Int(0))))
	n := x.freshValue("n", tInt)
	e := x.freshValue("werr", res.At(1).Type())
	b := x.b
	ok := b.Eq(e.L[0], b.Int(0))
	toFile := b.False()
	if x.con.opt("files") { // what each file contains, and whether writing to it ever failed
		ft := x.w.resolveType("*os.File", nil)
		f := x.unboxed(w, ft).L[0]
		if w.L[0].op == "int" {
			if t := x.typeByID[int(w.L[0].val.Int64())]; t != nil && typeName(t) == "*os.File" {
				toFile = b.True()
			}
		} else {
			toFile = b.Eq(w.L[0], x.typeID(ft))
		}
		if sp := x.w.prog.ImportedPackage("os"); sp != nil && toFile.op != "false" { // the terminal is not one of them
			for _, n := range []string{"Stderr", "Stdout"} {
				toFile = b.And(toFile, b.Not(b.Eq(f, x.load(st, x.globalLoc(sp.Members[n].(*ssa.Global))).L[0])))
			}
		}
		if toFile.op != "false" {
			d, bad := x.comp(st, "$fdata", arr(SInt, SStr)), x.comp(st, "$fbad", arr(SInt, SBool))
			st.comps["$fdata"] = b.Ite(toFile, b.Store(d, f, b.Ite(ok, x.sconcat(b.Select(d, f), text), b.Fresh("partial", SStr))), d)
			st.comps["$fbad"] = b.Ite(b.And(toFile, b.Not(ok)), b.Store(bad, f, b.True()), bad)
		}
	}
	if toFile.op != "true" {
		cur, bad := x.comp(st, "$out", SStr), x.comp(st, "$werr", SBool)
		st.comps["$werr"] = b.Ite(toFile, bad, b.Or(bad, b.Not(ok)))
		st.comps["$out"] = b.Ite(toFile, cur, b.Ite(ok, x.sconcat(cur, text), b.Fresh("partial", SStr)))
	}
	return &Value{T: res, X: &Tuple{[]*Value{n, e}}}, true
}

// varargs loads the elements of a variadic argument of known length; nil when unknown.
// printText is what fmt.Print prints: a space between operands when neither is a string.
func (x *Exec) printText(st *State, as []*Value) *Term {
	t := x.b.StrLit("")
	if as == nil {
		return x.b.Fresh("text", SStr)
	}
	isStr := func(a *Value) (bool, bool) {
		v, ok := x.dynamic(a)
		if !ok {
			return false, false
		}
		bt, _ := v.T.(*types.Basic)
		return bt != nil && bt.Kind() == types.String, true
	}
	for i, a := range as {
		if i > 0 {
			s1, k1 := isStr(as[i-1])
			s2, k2 := isStr(a)
			switch {
			case s1 || s2:
			case k1 && k2:
				t = x.sconcat(t, x.b.StrLit(" "))
			default:
				return x.b.Fresh("text", SStr)
			}
		}
		t = x.sconcat(t, x.verbText(st, "", nil, 'v', a))
	}
	return t
}

func (x *Exec) varargs(st *State, s *Value) []*Value {
	if s.L == nil || s.L[2].op != "int" {
		return nil
	}
	out := []*Value{}
	et := s.T.Underlying().(*types.Slice).Elem()
	for q := int64(0); q < s.L[2].val.Int64(); q++ {
		out = append(out, x.load(st, x.elemLoc(et, s.L[0], x.at(s.L[1], x.b.Int(q)))))
	}
	return out
}

func (x *Exec) fmtText(st *State, f *Term, args []*Value, depth int) *Term {
	b := x.b
	if args == nil && f != nil {
		if lit, ok := b.litOf(f); !ok || strings.Contains(lit, "%") {
			return b.Fresh("text", SStr)
		}
	}
	if depth < 4 {
		if f.op == "ite" {
			return b.Ite(f.args[0], x.fmtText(st, f.args[1], args, depth+1), x.fmtText(st, f.args[2], args, depth+1))
		}
		if f.op == "sconcat" && f.args[0].op == "ite" {
			i := f.args[0]
			return b.Ite(i.args[0], x.fmtText(st, x.sconcat(i.args[1], f.args[1]), args, depth+1), x.fmtText(st, x.sconcat(i.args[2], f.args[1]), args, depth+1))
		}
	}
	lit, ok := b.litOf(f)
	if !ok {
		return b.Fresh("text", SStr)
	}
	out := b.StrLit("")
	n := 0
	next := func() *Value {
		n++
		if n > len(args) {
			return nil
		}
		return args[n-1]
	}
	for i := 0; i < len(lit); {
		if lit[i] != '%' {
			j := strings.IndexByte(lit[i:], '%')
			if j < 0 {
				j = len(lit) - i
			}
			out = x.sconcat(out, b.StrLit(lit[i:i+j]))
			i += j
			continue
		}
		j := i + 1
		if j < len(lit) && lit[j] == '%' {
			out = x.sconcat(out, b.StrLit("%"))
			i = j + 1
			continue
		}
		var stars []*Term
		for j < len(lit) && strings.IndexByte("+-# 0123456789.*", lit[j]) >= 0 {
			if lit[j] == '*' {
				a := next()
				if a == nil {
					return b.Fresh("text", SStr)
				}
				u, ok := x.dynamic(a)
				if !ok || len(u.L) != 1 || u.L[0].sort != SInt {
					return b.Fresh("text", SStr)
				}
				stars = append(stars, u.L[0])
			}
			j++
		}
		if j >= len(lit) {
			return b.Fresh("text", SStr)
		}
		a := next()
		if a == nil {
			return b.Fresh("text", SStr)
		}
		out = x.sconcat(out, x.verbText(st, lit[i+1:j], stars, lit[j], a))
		i = j + 1
	}
	return out
}

// dynamic gives the concrete value inside an interface whose type is known.
func (x *Exec) dynamic(a *Value) (*Value, bool) {
	if _, ok := a.T.Underlying().(*types.Interface); !ok {
		return a, true
	}
	if a.L == nil || a.L[0].op != "int" {
		return nil, false
	}
	t := x.typeByID[int(a.L[0].val.Int64())]
	if t == nil {
		return nil, false
	}
	return x.unboxed(a, t), true
}

func (x *Exec) verbText(st *State, flags string, stars []*Term, verb byte, a *Value) *Term {
	b := x.b
	v, ok := x.dynamic(a)
	if !ok || v.L == nil {
		return b.Fresh("text", SStr)
	}
	bt, _ := v.T.Underlying().(*types.Basic)
	hasString := false
	for _, n := range []string{"String", "Error", "Format"} {
		if types.NewMethodSet(v.T).Lookup(nil, n) != nil {
			hasString = true
		}
	}
	var raw *Term
	switch {
	case bt != nil && bt.Info()&types.IsString != 0 && !hasString && (verb == 's' || verb == 'v'):
		raw = v.L[0]
	case bt != nil && bt.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v' && !hasString) && !strings.ContainsAny(flags, "+0# ."):
		raw = b.Fun("itoa", SStr, v.L[0])
	case typeName(v.T) == "*coin.Amount" && verb != 'p' && verb != 'T' && !strings.Contains(flags, "#"):
		return x.amountText(st, flags, stars, v)
	}
	if raw == nil {
		if bt != nil && !hasString {
			return b.Fun(fmt.Sprintf("fmt|%s%c", flags, verb), SStr, append(append([]*Term{}, stars...), v.L...)...)
		}
		return b.Fresh("text", SStr)
	}
	// only width and alignment remain meaningful
	left := strings.HasPrefix(flags, "-")
	w := strings.TrimPrefix(flags, "-")
	pad := "padl"
	if left {
		pad = "padr"
	}
	switch {
	case w == "":
		return raw
	case w == "*" && len(stars) == 1:
		return b.Fun(pad, SStr, stars[0], raw)
	case strings.Trim(w, "0123456789") == "" && w[0] != '0':
		var n int64
		fmt.Sscan(w, &n)
		return b.Fun(pad, SStr, b.Int(n), raw)
	}
	return b.Fun(fmt.Sprintf("fmt|%s%c", flags, verb), SStr, append(append([]*Term{}, stars...), v.L...)...)
}

// amountText is what the Format method of amounts prints: amttext(value, places), padded.
func (x *Exec) amountText(st *State, flags string, stars []*Term, v *Value) *Term {
	b := x.b
	at := x.w.resolveType("coin.Amount", nil)
	bt := x.w.resolveType("math/big.Int", nil)
	ct := x.w.resolveType("coin.Commodity", nil)
	am := x.load(st, x.refLoc(at, v.L[0]))
	val := x.load(st, x.refLoc(bt, am.L[0])).L[0]
	dec := x.load(st, x.refLoc(ct, am.L[1]))
	d := x.fieldOf(dec, "Decimals").L[0]
	prec := d
	pad := ""
	f := flags
	if strings.HasPrefix(f, "-") {
		pad, f = "padr", f[1:]
	}
	k := 0
	star := func() *Term {
		k++
		if k > len(stars) {
			return nil
		}
		return stars[k-1]
	}
	var width *Term
	wf, pf, dot := strings.Cut(f, ".")
	num := func(s string) *Term {
		if s == "*" {
			return star()
		}
		if s == "" || strings.Trim(s, "0123456789") != "" || s[0] == '0' && len(s) > 1 {
			return nil
		}
		var n int64
		fmt.Sscan(s, &n)
		return b.Int(n)
	}
	if wf != "" {
		if width = num(wf); width == nil {
			return b.Fresh("text", SStr)
		}
	}
	if dot {
		if prec = num(pf); prec == nil {
			return b.Fresh("text", SStr)
		}
	}
	t := b.Fun("amttext", SStr, val, d, prec)
	if width != nil {
		if pad == "" {
			pad = "padl"
		}
		return b.Fun(pad, SStr, width, t)
	}
	return t
}

func (x *Exec) fieldOf(v *Value, name string) *Value {
	s := v.T.Underlying().(*types.Struct)
	off := 0
	for i := 0; i < s.NumFields(); i++ {
		n := len(leaves(s.Field(i).Type()))
		if s.Field(i).Name() == name {
			return &Value{T: s.Field(i).Type(), L: v.L[off : off+n]}
		}
		off += n
	}
	bail("no field %s", name)
	return nil
}
