package main

// The contract language: lexer, parser and syntax.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Expr is a specification expression.
type Expr struct {
	Op   string // ident, int, str, bool, nil, call, field, index, slice, un, bin, ite, forall, exists, let, deref, sum, old, pre
	Name string
	Args []*Expr
	Vars []Binder
	Trig [][]*Expr
	Int  string
	Line string
}

type Binder struct {
	Name string
	Type string
}

type Clause struct {
	Label string
	E     *Expr
	Line  string
}

func (c *Clause) label() string {
	if c.Label != "" {
		return c.Label
	}
	return c.Line
}

type Contract struct {
	Name     string
	Params   []string
	Results  []string
	Requires []*Clause
	Ensures  []*Clause
	Exits    []*Clause
	Proves   []*Clause         // checked like ensures, but not assumed by callers
	Cuts     map[int]bool      // loops at which facts established before are forgotten
	Steps    map[int][]*Clause // checked at the end of every iteration of a loop
	Modifies []*Expr
	Loops    map[int][]*Clause
	LoopNo   map[int]int // another reading of the loop numbers and of the locals the invariants name
	Rename   map[string]string
	Outer    bool
	Before   map[string][]*Clause // checked at the calls of a function
	Effects  []*Expr              // $ghost == value: what a call does to a ghost variable that no code reads or writes
	Opts     map[string]string
	Props    []string
	Trusted  string
	Line     string
	Captures []string // names for the parameters of the enclosing function that a closure captures
	Foreach  *Expr
	Uses     []*Expr // lemma/axiom instantiation hints assumed at entry (only proved lemmas)
}

func (c *Contract) opt(name string) bool { _, ok := c.Opts[name]; return ok }
func (c *Contract) loopInvs(n int) []*Clause {
	return c.Loops[c.inContract(n)]
}

type Macro struct {
	Name   string
	Params []Binder
	Body   *Expr
	Line   string
}

type UFun struct {
	Name   string
	Params []string
	Ret    string
}

type Axiom struct {
	Label  string
	E      *Expr
	Lemma  bool
	By     string // induction variable
	Props  []string
	Uses   []string // names of ufuns that trigger inclusion
	Pkg    string
	Line   string
	Deps   []string // axioms/lemmas the lemma may use
	Reason string
	Only   []string
	noAuto bool
}

type SpecSet struct {
	Contracts map[string]*Contract
	Macros    map[string]*Macro
	UFuns     map[string]*UFun
	Axioms    []*Axiom
	Invs      []*Axiom
	Ghosts    map[string]string
	Order     []string
}

// ---- lexer

type tok struct {
	k    string // id, int, str, op, eof
	s    string
	line string
	col  int
}

func lexSpec(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	col := 0
	rs := []byte(src)
	pos := func() string { return fmt.Sprintf("%s:%d", filepath.Base(file), line) }
	for i < len(rs) {
		c := rs[i]
		switch {
		case c == '\n':
			line++
			i++
			col = 0
		case c == ' ' || c == '\t' || c == '\r':
			i++
			col++
		case c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rune(rs[j])) || unicode.IsDigit(rune(rs[j])) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, tok{"id", string(rs[i:j]), pos(), col})
			col += j - i
			i = j
		case unicode.IsDigit(rune(c)):
			j := i + 1
			for j < len(rs) && unicode.IsDigit(rune(rs[j])) {
				j++
			}
			out = append(out, tok{"int", string(rs[i:j]), pos(), col})
			col += j - i
			i = j
		case c == '"':
			j := i + 1
			for rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(string(rs[i : j+1]))
			if err != nil {
				panic(fmt.Sprintf("%s: %v", pos(), err))
			}
			out = append(out, tok{"str", s, pos(), col})
			col += j + 1 - i
			i = j + 1
		case c == '\'':
			out = append(out, tok{"int", strconv.Itoa(int(rs[i+1])), pos(), col})
			i += 3
			col += 3
		default:
			ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", ":=", "->"}
			found := ""
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(len(rs), i+4)]), o) {
					found = o
					break
				}
			}
			if found == "" {
				found = string(c)
			}
			out = append(out, tok{"op", found, pos(), col})
			i += len(found)
			col += len(found)
		}
	}
	out = append(out, tok{"eof", "", pos(), 0})
	return out
}

type specParser struct {
	ts []tok
	p  int
}

func (p *specParser) peek() tok { return p.ts[p.p] }
func (p *specParser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *specParser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *specParser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *specParser) expect(s string) tok {
	t := p.next()
	if t.s != s || t.k == "str" {
		panic(fmt.Sprintf("%s: expected %q, found %q", t.line, s, t.s))
	}
	return t
}
func (p *specParser) ident() string {
	t := p.next()
	if t.k != "id" {
		panic(fmt.Sprintf("%s: expected identifier, found %q", t.line, t.s))
	}
	return t.s
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *specParser) expr() *Expr { return p.binary(1) }

func (p *specParser) binary(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if !ok || t.k == "str" || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.binary(pr)
		} else {
			r = p.binary(pr + 1)
		}
		l = &Expr{Op: "bin", Name: t.s, Args: []*Expr{l, r}, Line: t.line}
	}
}

func (p *specParser) unary() *Expr {
	t := p.peek()
	if t.k == "op" {
		switch t.s {
		case "!", "-":
			p.next()
			return &Expr{Op: "un", Name: t.s, Args: []*Expr{p.unary()}, Line: t.line}
		case "*":
			p.next()
			return &Expr{Op: "deref", Args: []*Expr{p.unary()}, Line: t.line}
		}
	}
	if t.k == "id" {
		switch t.s {
		case "forall", "exists":
			p.next()
			e := &Expr{Op: t.s, Line: t.line}
			e.Vars = p.binders("::")
			p.expect("::")
			for p.accept("{") {
				var tr []*Expr
				for {
					tr = append(tr, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				e.Trig = append(e.Trig, tr)
			}
			e.Args = []*Expr{p.expr()}
			return e
		case "if":
			p.next()
			c := p.expr()
			p.expect("then")
			a := p.expr()
			p.expect("else")
			b := p.expr()
			return &Expr{Op: "ite", Args: []*Expr{c, a, b}, Line: t.line}
		case "let":
			p.next()
			n := p.ident()
			p.expect(":=")
			v := p.expr()
			p.expect("::")
			b := p.expr()
			return &Expr{Op: "let", Name: n, Args: []*Expr{v, b}, Line: t.line}
		}
	}
	return p.postfix(p.primary())
}

// binders: name type, name type ... ; type text up to , or the stop token
func (p *specParser) binders(stop string) []Binder {
	var out []Binder
	for !p.is(stop) {
		n := p.ident()
		if p.accept(",") { // name list sharing a type
			names := []string{n}
			for {
				names = append(names, p.ident())
				if !p.accept(",") {
					break
				}
			}
			ty := p.typeText(stop)
			for _, n := range names {
				out = append(out, Binder{n, ty})
			}
		} else {
			out = append(out, Binder{n, p.typeText(stop)})
		}
		if !p.accept(";") && !p.accept(",") {
			break
		}
	}
	return out
}

func (p *specParser) typeText(stop string) string {
	var sb strings.Builder
	depth := 0
	for {
		t := p.peek()
		if depth == 0 && (t.s == stop || t.s == ";" || t.s == "," || t.s == ")" || t.s == "=" || t.s == "{") {
			break
		}
		if t.s == "(" || t.s == "[" {
			depth++
		}
		if t.s == ")" || t.s == "]" {
			depth--
		}
		if t.k == "eof" {
			panic("unterminated type")
		}
		sb.WriteString(t.s)
		p.next()
	}
	return sb.String()
}

func (p *specParser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "int":
		return &Expr{Op: "int", Int: t.s, Line: t.line}
	case "str":
		return &Expr{Op: "str", Name: t.s, Line: t.line}
	case "id":
		switch t.s {
		case "true", "false":
			return &Expr{Op: "bool", Name: t.s, Line: t.line}
		case "nil":
			return &Expr{Op: "nil", Line: t.line}
		case "sum":
			// sum(i, lo, hi, e)
			if p.is("(") {
				p.next()
				v := p.ident()
				p.expect(",")
				lo := p.expr()
				p.expect(",")
				hi := p.expr()
				p.expect(",")
				e := p.expr()
				p.expect(")")
				return &Expr{Op: "sum", Name: v, Args: []*Expr{lo, hi, e}, Line: t.line}
			}
		}
		return &Expr{Op: "ident", Name: t.s, Line: t.line}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	panic(fmt.Sprintf("%s: unexpected %q", t.line, t.s))
}

func (p *specParser) postfix(e *Expr) *Expr {
	for {
		t := p.peek()
		if t.k != "op" {
			return e
		}
		switch t.s {
		case ".":
			p.next()
			e = &Expr{Op: "field", Name: p.ident(), Args: []*Expr{e}, Line: t.line}
		case "[":
			p.next()
			i := p.expr()
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}, Line: t.line}
		case "(":
			if e.Op != "ident" && e.Op != "field" {
				return e
			}
			p.next()
			var as []*Expr
			for !p.is(")") {
				as = append(as, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			if e.Op == "field" { // pkg.macro(...)
				e = &Expr{Op: "call", Name: e.Args[0].Name + "." + e.Name, Args: as, Line: t.line}
			} else {
				e = &Expr{Op: "call", Name: e.Name, Args: as, Line: t.line}
			}
		default:
			return e
		}
	}
}

// ---- declarations

var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "exits": true, "loop": true, "opt": true, "props": true, "trusted": true, "func": true, "spec": true, "ufun": true, "axiom": true, "lemma": true, "foreach": true, "uses": true, "captures": true, "invariant": true, "proves": true, "ghost": true, "before": true, "effect": true}

func (p *specParser) lbl() string {
	if p.accept("[") {
		var sb strings.Builder
		for !p.is("]") {
			t := p.next()
			if sb.Len() > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(t.s)
		}
		p.expect("]")
		return strings.ReplaceAll(strings.ReplaceAll(sb.String(), " - ", "-"), " ' ", "'")
	}
	return ""
}

func (p *specParser) clause() *Clause {
	l := p.peek().line
	lb := p.lbl()
	return &Clause{Label: lb, E: p.expr(), Line: l}
}

// fname reads a function name such as (*coin.Amount).AddIn, cmd/coin.trim, cmd/coin.init$1
func (p *specParser) fname() string {
	var sb strings.Builder
	// name ends at the parameter list "(": the paren group directly followed by params.
	// A leading "(" belongs to the receiver.
	if p.is("(") {
		for {
			t := p.next()
			sb.WriteString(t.s)
			if t.s == ")" {
				break
			}
		}
	}
	for !p.is("(") {
		t := p.next()
		if t.k == "eof" {
			panic("bad function name")
		}
		sb.WriteString(t.s)
	}
	return sb.String()
}

func (p *specParser) names() []string {
	var out []string
	p.expect("(")
	for !p.is(")") {
		out = append(out, p.ident())
		p.accept(",")
	}
	p.expect(")")
	return out
}

func (s *SpecSet) parseFile(file string) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	p := &specParser{ts: lexSpec(file, string(src))}
	for p.peek().k != "eof" {
		t := p.next()
		switch t.s {
		case "func":
			c := &Contract{Line: t.line, Loops: map[int][]*Clause{}, Cuts: map[int]bool{}, Steps: map[int][]*Clause{}, Before: map[string][]*Clause{}, Opts: map[string]string{}}
			c.Name = p.fname()
			c.Params = p.names()
			if p.is("(") {
				c.Results = p.names()
			}
			if s.Contracts[c.Name] != nil {
				panic(t.line + ": duplicate contract " + c.Name)
			}
			s.Contracts[c.Name] = c
			s.Order = append(s.Order, c.Name)
		body:
			for {
				switch t := p.peek(); t.s {
				case "requires":
					p.next()
					c.Requires = append(c.Requires, p.clause())
				case "ensures":
					p.next()
					c.Ensures = append(c.Ensures, p.clause())
				case "proves":
					p.next()
					c.Proves = append(c.Proves, p.clause())
				case "exits":
					p.next()
					c.Exits = append(c.Exits, p.clause())
				case "foreach":
					p.next()
					c.Foreach = p.expr()
				case "before":
					p.next()
					n := p.next().s
					c.Before[n] = append(c.Before[n], p.clause())
				case "effect":
					p.next()
					e := p.expr()
					if e.Op != "bin" || e.Name != "==" || !strings.HasPrefix(e.Args[0].Name, "$") {
						panic(t.line + ": effect needs $ghost == value")
					}
					c.Effects = append(c.Effects, e)
				case "uses":
					p.next()
					c.Uses = append(c.Uses, p.expr())
				case "modifies":
					p.next()
					for {
						c.Modifies = append(c.Modifies, p.expr())
						if !p.accept(",") {
							break
						}
					}
				case "loop":
					p.next()
					n, _ := strconv.Atoi(p.next().s)
					if p.accept("step") {
						c.Steps[n] = append(c.Steps[n], p.clause())
						continue
					}
					if p.accept("cut") {
						c.Cuts[n] = true
						continue
					}
					p.expect("inv")
					c.Loops[n] = append(c.Loops[n], p.clause())
				case "opt":
					p.next()
					n := p.ident()
					v := ""
					if p.accept("=") {
						v = p.next().s
					}
					c.Opts[n] = v
				case "captures":
					p.next()
					c.Captures = append(c.Captures, p.ident())
					for p.accept(",") {
						c.Captures = append(c.Captures, p.ident())
					}
				case "props":
					p.next()
					for p.peek().k == "id" && len(p.peek().s) == 3 && p.peek().s[0] == 'C' {
						c.Props = append(c.Props, p.next().s)
					}
				case "trusted":
					p.next()
					c.Trusted = "trusted"
					if p.peek().k == "str" {
						c.Trusted = p.next().s
					}
				default:
					break body
				}
			}
		case "spec":
			m := &Macro{Line: t.line}
			m.Name = p.ident()
			p.expect("(")
			m.Params = p.binders(")")
			p.expect(")")
			p.expect("=")
			m.Body = p.expr()
			if s.Macros[m.Name] != nil {
				panic(fmt.Sprintf("%s: spec %s is already defined", t.line, m.Name))
			}
			s.Macros[m.Name] = m
		case "ufun":
			u := &UFun{}
			u.Name = p.ident()
			p.expect("(")
			for !p.is(")") {
				u.Params = append(u.Params, p.typeText(")"))
				p.accept(",")
			}
			p.expect(")")
			u.Ret = p.next().s
			if u.Ret == "*" || u.Ret == "[" {
				u.Ret += p.typeText(";")
			}
			p.accept(";")
			s.UFuns[u.Name] = u
		case "ghost":
			n := p.ident()
			s.Ghosts[n] = p.ident()
		case "invariant":
			a := &Axiom{Line: t.line}
			a.Label = p.lbl()
			a.Pkg = p.typeText(":")
			p.expect(":")
			a.E = p.expr()
			s.Invs = append(s.Invs, a)
		case "axiom", "lemma":
			a := &Axiom{Lemma: t.s == "lemma", Line: t.line}
			a.Label = p.lbl()
			for {
				if p.accept("by") {
					p.expect("induction")
					a.By = p.ident()
				} else if p.accept("using") {
					for p.peek().k == "id" && !p.is("by") && !p.is("props") && !p.is(":") {
						a.Deps = append(a.Deps, p.next().s)
						p.accept(",")
					}
				} else if p.accept("only") {
					for p.peek().k == "str" {
						a.Only = append(a.Only, p.next().s)
					}
				} else if p.accept("props") {
					for p.peek().k == "id" {
						a.Props = append(a.Props, p.next().s)
					}
				} else {
					break
				}
			}
			p.expect(":")
			a.E = p.expr()
			s.Axioms = append(s.Axioms, a)
		default:
			panic(fmt.Sprintf("%s: unexpected %q", t.line, t.s))
		}
	}
}

func loadSpecs(dir string) *SpecSet {
	s := &SpecSet{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, UFuns: map[string]*UFun{}, Ghosts: map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gcv"))
	sort.Strings(fs)
	for _, f := range fs {
		s.parseFile(f)
	}
	return s
}

func (e *Expr) walk(f func(*Expr)) {
	f(e)
	for _, a := range e.Args {
		a.walk(f)
	}
	for _, t := range e.Trig {
		for _, a := range t {
			a.walk(f)
		}
	}
}
