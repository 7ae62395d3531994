package main

// Discharging obligations with the installed SMT solvers.

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type specAx struct {
	label string
	t     *Term
	uf    map[string]bool
}

// specAxioms evaluates the axioms and lemmas of the contract files in this term bank.
func (x *Exec) specAxioms(upto *Axiom) []specAx {
	var out []specAx
	for _, a := range x.w.specs.Axioms {
		if a == upto {
			break
		}
		if a.Lemma && a.noAuto {
			continue
		}
		if len(a.Only) > 0 && !matchOnly(a.Only, x.con.Name) {
			continue
		}
		if x.axCache == nil {
			x.axCache = map[*Axiom]*specAx{}
		}
		c := x.axCache[a]
		if c == nil {
			env := &Env{x: x, st: &State{cond: x.b.True(), comps: map[string]*Term{}}, vars: map[string]*Value{}, ax: true, pkg: x.w.byShort["coin"]}
			t := x.w.evalBool(env, a.E)
			uf := map[string]bool{}
			seen := map[*Term]bool{}
			var f func(t *Term)
			f = func(t *Term) {
				if seen[t] {
					return
				}
				seen[t] = true
				if x.w.specs.UFuns[t.op] != nil || strings.HasPrefix(t.op, "fn|") {
					uf[t.op] = true
				}
				for _, q := range t.args {
					f(q)
				}
			}
			f(t)
			c = &specAx{a.Label, t, uf}
			x.axCache[a] = c
		}
		out = append(out, *c)
	}
	return out
}

func matchOnly(only []string, name string) bool {
	for _, o := range only {
		if strings.Contains(name, o) {
			return true
		}
	}
	return false
}

// subjects: for a package invariant the globals it mentions, for a fact about one symbol that symbol;
// nil for every other assumption.
func (x *Exec) subjects(t *Term) []string {
	if s, ok := x.subjCache[t]; ok {
		return s
	}
	seen := map[*Term]bool{}
	syms := map[string]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.sym && t.op != "$alloc@0" && !strings.HasPrefix(t.op, "alloc!") {
			syms[t.op] = true
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	var out []string
	if x.invAx[t] {
		for s := range syms {
			if strings.HasPrefix(s, "G!") {
				out = append(out, s)
			}
		}
	} else if len(syms) == 1 {
		for s := range syms {
			out = append(out, s)
		}
	}
	if x.subjCache == nil {
		x.subjCache = map[*Term][]string{}
	}
	x.subjCache[t] = out
	return out
}

// gather builds the assertion list for proving goal from assumes[:n].
func (x *Exec) gather(assumes []*Term, goal *Term, upto *Axiom) []*Term {
	b := x.b
	for _, t := range assumes {
		if x.usesAsked(t) {
			goal = x.mark(goal)
			break
		}
	}
	base, later := []*Term{b.Not(goal)}, []*Term{}
	for _, l := range [][]*Term{x.axioms, assumes} {
		for _, t := range l {
			if ss := x.subjects(t); ss != nil {
				later = append(later, t)
			} else {
				base = append(base, t)
			}
		}
	}
	seen := map[*Term]bool{}
	used := map[string]bool{}
	usedSym := map[string]bool{}
	sums := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.sym {
			usedSym[t.op] = true
		}
		if t.sym == false && len(t.args) > 0 {
			used[t.op] = true
			if strings.HasPrefix(t.op, "$sum!") {
				sums[t] = true
			}
		}
		for _, q := range t.args {
			f(q)
		}
	}
	for _, t := range base {
		f(t)
	}
	// facts about a single component, and package invariants, only when what they are about occurs
	for ch := true; ch; {
		ch = false
		for i, t := range later {
			if t == nil {
				continue
			}
			for _, s := range x.subjects(t) {
				if usedSym[s] {
					f(t)
					base = append(base, t)
					later[i] = nil
					ch = true
					break
				}
			}
		}
	}
	axs := x.specAxioms(upto)
	inc := map[int]bool{}
	for ch := true; ch; {
		ch = false
		for i, a := range axs {
			if inc[i] {
				continue
			}
			ok := len(a.uf) == 0
			for u := range a.uf {
				if used[u] {
					ok = true
				}
			}
			if ok {
				inc[i] = true
				ch = true
				f(a.t)
				base = append(base, a.t)
			}
		}
	}
	sf := x.sumFacts(sums)
	for _, t := range sf {
		f(t)
	}
	base = append(base, sf...)
	return base
}

type solver struct {
	name string
	args func(ms int) []string
}

var solvers = []solver{
	{"z3-new", func(ms int) []string { return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }},
	{"z3", func(ms int) []string { return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }},
	{"cvc5", func(ms int) []string {
		return []string{"--lang", "smt2", fmt.Sprintf("--tlimit=%d", ms), "--full-saturate-quant", "-"}
	}},
	// trigger instantiation only: fast, and fast to give up
	{"z3-new", func(ms int) []string {
		return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.auto_config=false", "smt.mbqi=false", "smt.case_split=3"}
	}},
}

var solveSem = make(chan struct{}, 8)
var solverSecs = map[string]float64{}
var solverMu sync.Mutex

func runSolver(ctx context.Context, s solver, script string, ms int) (string, string, float64) {
	solveSem <- struct{}{}
	defer func() { <-solveSem }()
	if ctx.Err() != nil {
		return "cancelled", "", 0
	}
	t0 := time.Now()
	c, cancel := context.WithTimeout(ctx, time.Duration(ms)*time.Millisecond+4*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c, s.name, s.args(ms)...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	el := time.Since(t0).Seconds()
	solverMu.Lock()
	solverSecs[s.name] += el
	solverMu.Unlock()
	o := strings.TrimSpace(out.String())
	for strings.HasPrefix(o, "WARNING") {
		_, o, _ = strings.Cut(o, "\n")
	}
	first := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		first = o[:i]
	}
	return first, o, el
}

type stage struct {
	si  int
	mul bool
	ms  int
}

func (x *Exec) stages() []stage {
	t := 1000 * x.w.opts.timeout
	return []stage{{3, false, 2000}, {1, false, t}, {2, false, t}, {0, true, t}, {0, false, t}}
}

// prove discharges one goal; returns verdict, backend, seconds, output.
func (x *Exec) prove(assumes []*Term, goal *Term, upto *Axiom) (string, string, float64, string) {
	b := x.b
	if goal.op == "true" {
		return "proved", "simplifier", 0, ""
	}
	// split conjunctive goals
	x.mu.Lock()
	var cond *Term = b.True()
	x.mu.Unlock()
	g := goal
	if g.op == "=>" {
		cond, g = g.args[0], g.args[1]
	}
	if g.op == "and" {
		tot := 0.0
		by := map[string]bool{}
		for _, c := range g.args {
			x.mu.Lock()
			sub := b.Imp(cond, c)
			x.mu.Unlock()
			v, s, sec, o := x.prove(assumes, sub, upto)
			tot += sec
			if v != "proved" {
				x.mu.Lock()
				sh := b.Show(c)
				x.mu.Unlock()
				return v, s, tot, "conjunct: " + sh + "\n" + o
			}
			by[s] = true
		}
		return "proved", strings.Join(sortedKeys(by), "+"), tot, ""
	}
	x.mu.Lock()
	as := x.gather(assumes, goal, upto)
	hasMul := false
	script := b.Query(as, false)
	if strings.Contains(script, "(declare-fun mul ") {
		hasMul = true
	}
	lightScript := ""
	if la := x.light(assumes); len(la) < len(assumes) {
		lightScript = b.Query(x.gather(la, goal, upto), false)
	}
	scriptMul := ""
	if hasMul {
		scriptMul = b.Query(as, true)
	}
	x.mu.Unlock()
	if x.w.opts.keep != "" {
		x.mu.Lock()
		x.fileN++
		fn := filepath.Join(x.w.opts.keep, fmt.Sprintf("%s-%d.smt2", strings.NewReplacer("/", "_", "*", "", "(", "", ")", "", "$", "_").Replace(x.con.Name), x.fileN))
		x.mu.Unlock()
		os.WriteFile(fn, []byte(script), 0o644)
	}
	tot := 0.0
	last := ""
	st := x.stages()
	ctx, cancelAll := context.WithDeadline(context.Background(), x.w.opts.deadline)
	defer cancelAll()
	if atomic.LoadInt32(&failCount) >= 3 {
		// the verdict is settled; only give the others a fair chance
		for i := range st {
			st[i].ms = minInt(st[i].ms, 6000)
		}
	}
	// first stage alone, then the rest as a portfolio
	v, o, sec := runSolver(ctx, solvers[st[0].si], script, minInt(st[0].ms, 2000))
	tot += sec
	if v == "unsat" {
		return "proved", solvers[st[0].si].name, tot, ""
	}
	last = o
	if strings.Contains(v, "error") {
		return "error", solvers[st[0].si].name, tot, o
	}
	if v == "sat" {
		return "failed", solvers[st[0].si].name, tot, "sat (counterexample to the obligation)"
	}
	type r struct {
		v, n, o string
		sec     float64
	}
	ch := make(chan r, len(st))
	ctx2, cancel := context.WithCancel(ctx)
	defer cancel()
	n := 0
	for _, s := range st[1:] {
		sc := script
		if s.mul {
			if !hasMul {
				continue
			}
			sc = scriptMul
		}
		n++
		go func(s stage, sc string) {
			v, o, sec := runSolver(ctx2, solvers[s.si], sc, s.ms)
			ch <- r{v, solvers[s.si].name, o, sec}
		}(s, sc)
	}
	if lightScript != "" {
		n++
		go func() {
			v, o, sec := runSolver(ctx2, solvers[3], lightScript, 3000)
			if v != "unsat" {
				v, o = "unknown", ""
			}
			ch <- r{v, solvers[0].name, o, sec}
		}()
	}
	if len(x.splitConds(goal)) > 0 {
		n++
		go func() {
			budget := 24
			ok, sec := x.splitProve(ctx2, assumes, goal, upto, nil, &budget)
			v := "unknown"
			if ok {
				v = "unsat"
			}
			ch <- r{v, solvers[3].name, "", sec}
		}()
	}
	for i := 0; i < n; i++ {
		q := <-ch
		tot += q.sec
		if q.v == "unsat" {
			return "proved", q.n, tot, ""
		}
		if q.o != "" {
			last = q.n + ": " + q.o
		}
	}
	atomic.AddInt32(&failCount, 1)
	if ctx.Err() != nil {
		last = "out of time; " + last
	}
	return "unknown", "portfolio", tot, last
}

// splitConds lists the conditions of conditional terms in t (no bound variables), outermost first.
func (x *Exec) splitConds(t *Term) []*Term {
	seen := map[*Term]bool{}
	has := map[*Term]bool{}
	var out []*Term
	q := []*Term{t}
	for len(q) > 0 {
		t, q = q[0], q[1:]
		if seen[t] {
			continue
		}
		seen[t] = true
		if t.op == "ite" && !has[t.args[0]] && len(t.args[0].free) == 0 {
			has[t.args[0]] = true
			out = append(out, t.args[0])
		}
		q = append(q, t.args...)
	}
	return out
}

// splitProve proves a goal by cases over a condition its conditional terms depend on.
func (x *Exec) splitProve(ctx context.Context, assumes []*Term, goal *Term, upto *Axiom, facts []*Term, budget *int) (bool, float64) {
	x.mu.Lock()
	cs := x.splitConds(goal)
	x.mu.Unlock()
	if len(cs) == 0 || len(facts) >= 5 {
		return false, 0
	}
	c := cs[0]
	tot := 0.0
	for _, val := range []bool{true, false} {
		if *budget <= 0 || ctx.Err() != nil {
			return false, tot
		}
		*budget--
		x.mu.Lock()
		b := x.b
		m := map[*Term]*Term{}
		var learn func(t *Term, v bool)
		learn = func(t *Term, v bool) {
			if _, ok := m[t]; ok {
				return
			}
			switch {
			case t.op == "not":
				learn(t.args[0], !v)
				return
			case t.op == "and" && v, t.op == "or" && !v:
				for _, a := range t.args {
					learn(a, v)
				}
			}
			if v {
				m[t] = b.True()
			} else {
				m[t] = b.False()
			}
		}
		learn(c, val)
		fact := c
		if !val {
			fact = b.Not(c)
		}
		fs := append(append([]*Term{}, facts...), fact)
		as := make([]*Term, 0, len(assumes))
		for _, t := range assumes {
			if t = b.Subst(t, m); t.op != "true" {
				as = append(as, t)
			}
		}
		g := b.Subst(goal, m)
		proved := g.op == "true"
		for _, t := range as {
			proved = proved || t.op == "false"
		}
		script := ""
		if !proved {
			script = b.Query(x.gather(append(append([]*Term{}, as...), fs...), g, upto), false)
		}
		x.mu.Unlock()
		if proved {
			continue
		}
		v, _, sec := runSolver(ctx, solvers[3], script, 2000)
		tot += sec
		if x.w.opts.keep != "" {
			x.mu.Lock()
			x.fileN++
			os.WriteFile(filepath.Join(x.w.opts.keep, fmt.Sprintf("split%d-%d-%s.smt2", len(fs), x.fileN, v)), []byte(script), 0o644)
			x.mu.Unlock()
		}
		if v == "unsat" {
			continue
		}
		ok, sec := x.splitProve(ctx, as, g, upto, fs, budget)
		tot += sec
		if !ok {
			return false, tot
		}
	}
	return true, tot
}

var failCount int32

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// mark puts the marks of asked() on the universally quantified variables of a goal.
func (x *Exec) mark(g *Term) *Term {
	b := x.b
	switch g.op {
	case "=>":
		return b.Imp(g.args[0], x.mark(g.args[1]))
	case "and":
		var as []*Term
		for _, a := range g.args {
			as = append(as, x.mark(a))
		}
		return b.And(as...)
	case "forall":
		var as []*Term
		for _, v := range g.bvs {
			if a := x.asked(v); a != nil {
				as = append(as, a)
			}
		}
		return b.Forall(g.bvs, b.Imp(b.And(as...), x.mark(g.args[0])), g.pats...)
	}
	return g
}

// asked marks a term for the contract facts that are used on request only.
func (x *Exec) asked(t *Term) *Term {
	switch t.sort {
	case SInt:
		return x.b.Fun("$askedI", SBool, t)
	case SStr:
		return x.b.Fun("$askedS", SBool, t)
	}
	return nil
}

func (x *Exec) usesAsked(t *Term) bool {
	if r, ok := x.askedIn[t]; ok {
		return r
	}
	r := t.op == "$askedI" || t.op == "$askedS"
	for _, a := range t.args {
		r = r || x.usesAsked(a)
	}
	for _, p := range t.pats {
		for _, q := range p {
			r = r || x.usesAsked(q)
		}
	}
	if x.askedIn == nil {
		x.askedIn = map[*Term]bool{}
	}
	x.askedIn[t] = r
	return r
}

// light keeps the assumptions without quantifiers and those about the elements of single components:
// enough for most frame conditions, and fast.
func (x *Exec) light(assumes []*Term) []*Term {
	var out []*Term
	for _, t := range assumes {
		ok, is := x.lightIn[t]
		if !is {
			n, q := 0, 0
			seen := map[*Term]bool{}
			var f func(t *Term)
			f = func(t *Term) {
				if seen[t] || n > 200 {
					return
				}
				seen[t] = true
				n++
				if t.op == "forall" || t.op == "exists" {
					q += len(t.bvs)
				}
				for _, a := range t.args {
					f(a)
				}
			}
			f(t)
			ok = q == 0 || q == 1 && n <= 200
			if x.lightIn == nil {
				x.lightIn = map[*Term]bool{}
			}
			x.lightIn[t] = ok
		}
		if ok {
			out = append(out, t)
		}
	}
	return out
}

// quick is a cheap attempt used when inferring loop invariants.
func (w *World) quick(x *Exec, assumes []*Term, goal *Term) bool {
	return len(w.quickMany(x, []houCheck{{"", assumes, goal}})) == 0
}

// quickMany tries several goals and returns the names of those that could not be shown.
func (w *World) quickMany(x *Exec, cs []houCheck) map[string]bool {
	bad := map[string]bool{}
	var mu, rmu sync.Mutex
	var wg sync.WaitGroup
	slots := make(chan struct{}, 8)
	var errs string
	for _, c := range cs {
		slots <- struct{}{}
		rmu.Lock()
		dead := bad[c.name]
		rmu.Unlock()
		if dead {
			<-slots
			continue
		}
		wg.Add(1)
		go func(c houCheck) {
			defer wg.Done()
			defer func() { <-slots }()
			v := ""
			for full := 0; full < 2; full++ {
				as := c.assumes
				mu.Lock()
				if full == 0 {
					as = x.light(as)
					if len(as) == len(c.assumes) {
						mu.Unlock()
						continue
					}
				}
				script := x.b.Query(x.gather(as, c.goal, nil), false)
				mu.Unlock()
				var o string
				v, o, _ = runSolver(context.Background(), solvers[3], script, 700+800*full)
				if strings.Contains(v, "error") {
					rmu.Lock()
					errs = o
					rmu.Unlock()
				}
				if v == "unsat" {
					return
				}
				if full == 1 && w.opts.keep != "" && os.Getenv("GCV_DEBUG") != "" {
					rmu.Lock()
					w.quickN++
					fn := filepath.Join(w.opts.keep, fmt.Sprintf("quick-%s-%d-%s.smt2", strings.NewReplacer("/", "_", "*", "", "(", "", ")", "", "$", "_").Replace(x.con.Name), w.quickN, v))
					rmu.Unlock()
					os.WriteFile(fn, []byte("; "+c.name+"\n"+script), 0o644)
				}
			}
			rmu.Lock()
			bad[c.name] = true
			rmu.Unlock()
		}(c)
	}
	wg.Wait()
	if errs != "" {
		bail("solver error: %s", errs)
	}
	return bad
}

// cover: some return must be reachable under the assumptions.
func (x *Exec) cover() (bool, string) {
	if x.retCond == nil || x.con.opt("noreturns") {
		return true, ""
	}
	x.mu.Lock()
	as := x.gather(x.assumes, x.b.Not(x.retCond), nil)
	script := x.b.Query(as, false)
	x.mu.Unlock()
	v, _, _ := runSolver(context.Background(), solvers[0], script, 1000)
	if v == "unsat" {
		return false, "contradictory assumptions"
	}
	return true, v
}

func (x *Exec) sumFacts(in map[*Term]bool) []*Term {
	b := x.b
	var ss []*sumT
	for _, s := range x.sums {
		if in[s.t] {
			ss = append(ss, s)
		}
	}
	el := func(a, i *Term) *Term { return x.sumBody[a](i) }
	var f []*Term
	arrs := map[*Term]bool{}
	for _, s := range ss {
		f = append(f, b.Imp(b.Le(s.hi, s.lo), b.Eq(s.t, b.Int(0))))
		arrs[s.a] = true
	}
	for i, s := range ss {
		for _, o := range ss[:i] {
			k := [2]*Term{o.t, s.t}
			if x.sumPair == nil {
				x.sumPair = map[[2]*Term][]*Term{}
			}
			fs, ok := x.sumPair[k]
			if !ok {
				for _, pr := range [][2]*sumT{{o, s}, {s, o}} {
					p, q := pr[0], pr[1] // relate q to p
					d := b.Fresh("sumd", SInt)
					e := b.Fresh("sume", SInt)
					// p over [lo,h) agrees with q except possibly at one point d
					ind := func(h *Term, extra *Term) *Term {
						inr := func(t *Term) *Term { return b.And(b.Le(p.lo, t), b.Lt(t, h)) }
						dif := func(t *Term) *Term { return b.Not(b.Eq(el(p.a, t), el(q.a, t))) }
						bv := b.BV("i", SInt)
						none := b.Forall([]*Term{bv}, b.Imp(inr(bv), b.Eq(el(p.a, bv), el(q.a, bv))))
						return b.Or(b.And(b.Eq(q.t, b.Add(p.t, extra)), none),
							b.And(inr(d), dif(d), b.Or(
								b.Eq(q.t, b.Add(p.t, extra, el(q.a, d), b.Neg(el(p.a, d)))),
								b.And(inr(e), dif(e), b.Not(b.Eq(d, e))))))
					}
					same := b.Eq(p.lo, q.lo)
					if pr[0] == o {
						fs = append(fs, b.Imp(b.And(same, b.Eq(p.hi, q.hi)), ind(p.hi, b.Int(0))))
					}
					fs = append(fs, b.Imp(b.And(same, b.Le(p.lo, p.hi), b.Eq(q.hi, b.Add(p.hi, b.Int(1)))), ind(p.hi, el(q.a, p.hi))))
					if p.a == q.a {
						fs = append(fs, b.Imp(b.And(b.Eq(b.Add(q.lo, b.Int(1)), p.lo), b.Eq(p.hi, q.hi), b.Le(p.lo, p.hi)), b.Eq(q.t, b.Add(p.t, el(q.a, q.lo)))))
					}
				}
				x.sumPair[k] = fs
			}
			f = append(f, fs...)
		}
	}
	return f
}

// ---- lemmas

type LemmaResult struct {
	Label string
	Obls  []*Obl
	x     *Exec
	Bail  string
}

func (pr *Program) verifyLemma(a *Axiom) (res *LemmaResult) {
	con := &Contract{Name: "lemma " + a.Label, Opts: map[string]string{}, Loops: map[int][]*Clause{}}
	x := pr.newExec(con)
	res = &LemmaResult{Label: a.Label, x: x}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				res.Bail = r.msg
			case specErr:
				res.Bail = r.msg
			default:
				panic(r)
			}
		}
		res.Obls = x.obls
	}()
	b := x.b
	e := a.E
	if e.Op != "forall" {
		panic(specErr{a.Line + ": lemma must be a universal statement"})
	}
	env := &Env{x: x, st: &State{cond: b.True(), comps: map[string]*Term{}}, vars: map[string]*Value{}, ax: true, pkg: pr.byShort["coin"]}
	bind := func(env *Env, skip string, suf string) (bvs []*Term, sks map[string]*Value) {
		sks = map[string]*Value{}
		for _, v := range e.Vars {
			t := x.w.resolveType(v.Type, env.pkg)
			val := &Value{T: t}
			for _, l := range leaves(t) {
				val.L = append(val.L, b.Sym(v.Name+l.suf+suf, l.sort))
			}
			sks[v.Name] = val
		}
		return
	}
	_, sks := bind(env, "", "!sk")
	for k, v := range sks {
		env.vars[k] = v
	}
	goal := x.w.evalBool(env, e.Args[0])
	st := &State{cond: b.True(), comps: map[string]*Term{}}
	if a.By != "" {
		// inductive hypothesis at By-1 for all values of the other variables
		ih := env.clone()
		var bvs []*Term
		for _, v := range e.Vars {
			t := x.w.resolveType(v.Type, env.pkg)
			if v.Name == a.By {
				ih.vars[v.Name] = one(t, b.Sub(sks[a.By].L[0], b.Int(1)))
				continue
			}
			val := &Value{T: t}
			for _, l := range leaves(t) {
				bv := b.BV(v.Name, l.sort)
				bvs = append(bvs, bv)
				val.L = append(val.L, bv)
			}
			ih.vars[v.Name] = val
		}
		body := x.w.evalBool(ih, e.Args[0])
		var pats [][]*Term
		for _, tr := range e.Trig {
			var ps []*Term
			for _, p := range tr {
				ps = append(ps, ih.eval(p).L[0])
			}
			pats = append(pats, ps)
		}
		x.fact(b.Imp(b.Lt(b.Int(0), sks[a.By].L[0]), b.Forall(bvs, body, pats...)))
		x.oblige(st, "lemma", "base", 0, b.Imp(b.Le(sks[a.By].L[0], b.Int(0)), goal))
		x.obls[len(x.obls)-1].ass = nil
		x.assumes = x.assumes[:1]
		x.oblige(st, "lemma", "step", 0, b.Imp(b.Lt(b.Int(0), sks[a.By].L[0]), goal))
	} else {
		x.oblige(st, "lemma", "direct", 0, goal)
	}
	return
}

func dischargeAll(x *Exec, obls []*Obl, upto *Axiom) {
	var wg sync.WaitGroup
	for _, o := range obls {
		if o.Status != "" {
			continue
		}
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			o.Status, o.By, o.Secs, o.Output = x.prove(o.ass, o.goal, upto)
		}(o)
	}
	wg.Wait()
}

var _ = types.Typ
var _ = sort.Strings
