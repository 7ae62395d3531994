package main

import (
	"fmt"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Loop invariants are hints: whatever a proof takes from them is itself proved. When a function fails and its loops
// are not those the invariants were written for (a local renamed, a loop moved into a helper, one loop more or
// fewer), other readings of the invariants are tried: names given to other locals, numbers given to other loops.
// Nothing else in a contract is read differently.

type reading struct {
	loops map[int]int // number of a loop in the code -> number in the contract; nil: the same
	ren   map[string]string
	outer bool // names mean the locals of the outermost function that has them
}

func (r reading) String() string { return fmt.Sprint(r.loops, r.ren, r.outer) }

func (c *Contract) read(r reading) *Contract {
	d := *c
	d.LoopNo, d.Rename, d.Outer = r.loops, r.ren, r.outer
	return &d
}

func (c *Contract) inContract(n int) int {
	if c.LoopNo == nil {
		return n
	}
	return c.LoopNo[n]
}

func (c *Contract) inCode(n int) int {
	if c.LoopNo == nil {
		return n
	}
	for code, con := range c.LoopNo {
		if con == n {
			return code
		}
	}
	return -1
}

// localNames are the locals a clause at this loop may name.
func (env *Env) localNames(fr *Frame, own bool) []string {
	set := map[string]bool{}
	for ; fr != nil; fr = fr.parent {
		for _, blk := range fr.fn.Blocks {
			for _, in := range blk.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Comment != "" && env.live(fr, a) {
					set[a.Comment] = true
				}
			}
		}
		for _, fv := range fr.fn.FreeVars {
			set[fv.Name()] = true
		}
		if own {
			break
		}
	}
	return sortedKeys(set)
}

// lost notes a clause that names a local which is not there, with the locals it could mean.
func (x *Exec) lost(env *Env, e *Expr, msg string) {
	i := strings.Index(msg, "unknown identifier ")
	if i < 0 {
		return
	}
	name := strings.Fields(msg[i+len("unknown identifier "):])[0]
	if x.lostNames == nil {
		x.lostNames = map[string]map[string]int{}
	}
	if x.lostNames[name] == nil {
		x.lostNames[name] = map[string]int{}
	}
	was := x.con
	defer func() { x.con = was }()
	x.fitting(env, e, name, env.localNames(env.fr, false), x.lostNames[name])
}

// shadowed notes the names in a clause at an inlined loop that only a caller has, with the locals of the function itself
// that they could mean.
func (x *Exec) shadowed(env *Env, e *Expr) {
	if env.fr.parent == nil || !x.w.opts.rereading {
		return
	}
	own := env.localNames(env.fr, true)
	x.named2 = map[string]bool{}
	x.w.evalBool(env, e)
	for _, name := range sortedKeys(x.named2) {
		if slices.Contains(own, name) {
			continue
		}
		if x.outer == nil {
			x.outer = map[string]map[string]int{}
		}
		if x.outer[name] == nil {
			x.outer[name] = map[string]int{}
		}
		x.fitting(env, e, name, own, x.outer[name])
	}
}

// fitting counts, among the given locals, those that could take the place of a name.
func (x *Exec) fitting(env *Env, e *Expr, name string, locals []string, count map[string]int) {
	was := x.con
	defer func() { x.con = was }()
	for _, n := range locals {
		ren := map[string]string{name: n}
		for k, v := range was.Rename {
			ren[k] = v
		}
		x.con = was.read(reading{was.LoopNo, ren, was.Outer})
		fits := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if se, is := r.(specErr); !is {
						return // no value of this kind fits
					} else if strings.Contains(se.msg, "unknown identifier ") && !strings.Contains(se.msg, "unknown identifier "+name) {
						fits = true // another name is missing, too
					}
				}
			}()
			x.w.evalBool(env, e)
			fits = true
		}()
		if fits {
			count[n]++
		}
	}
}

// readings of the loop numbers when the code has n loops.
func (c *Contract) loopReadings(n int) []map[int]int {
	var nos []int
	for k := range c.Loops {
		nos = append(nos, k)
	}
	sort.Ints(nos)
	if len(nos) == 0 || len(c.Steps) > 0 || n == nos[len(nos)-1] {
		return nil
	}
	var out []map[int]int
	var rec func(i, from int, m map[int]int)
	rec = func(i, from int, m map[int]int) {
		if len(out) > 200 {
			return
		}
		if i == len(nos) {
			r := map[int]int{}
			for k, v := range m {
				r[k] = v
			}
			out = append(out, r)
			return
		}
		for k := from; k <= n; k++ {
			m[k] = nos[i]
			rec(i+1, k+1, m)
			delete(m, k)
		}
		rec(i+1, from, m) // no such loop any more
	}
	rec(0, 1, map[int]int{})
	same := func(m map[int]int) int {
		d := 0
		for k, v := range m {
			d += (k - v) * (k - v)
		}
		return d
	}
	sort.SliceStable(out, func(i, j int) bool {
		if len(out[i]) != len(out[j]) {
			return len(out[i]) > len(out[j])
		}
		return same(out[i]) < same(out[j])
	})
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}

// reread tries other readings of the invariants of con; nil when none proves the function.
func (pr *Program) reread(con *Contract, first *FnResult, until time.Time) *FnResult {
	if len(con.Loops) == 0 {
		return nil
	}
	pr.opts.rereading = true
	defer func() { pr.opts.rereading = false }()
	todo := []reading{{}}
	if n := len(first.x.loopOrd); n > 0 {
		for _, m := range con.loopReadings(n) {
			todo = append(todo, reading{loops: m})
		}
	}
	for _, r := range todo {
		if len(first.x.inlined) > 0 {
			r.outer = true
			todo = append(todo, r)
		}
	}
	tried := map[string]bool{}
	for n := 0; len(todo) > 0 && n < 40 && time.Now().Before(until); n++ {
		r := todo[0]
		todo = todo[1:]
		if tried[r.String()] {
			continue
		}
		tried[r.String()] = true
		res := pr.verifyFunc(con.read(r))
		if os.Getenv("GCV_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "reading", con.Name, r, res.Bail, res.x.lostNames, res.x.outer)
		}
		var more []reading
		if len(r.ren) < 4 {
			for _, name := range sortedKeys(res.x.lostNames) {
				fit := res.x.lostNames[name]
				cands := sortedKeys(fit)
				sort.SliceStable(cands, func(i, j int) bool { return fit[cands[i]] > fit[cands[j]] })
				for i, c := range cands {
					if i >= 3 {
						break
					}
					ren := map[string]string{name: c}
					for k, v := range r.ren {
						ren[k] = v
					}
					more = append(more, reading{r.loops, ren, r.outer})
				}
				if len(cands) > 0 {
					break
				}
			}
		}
		if len(more) > 0 {
			todo = append(more, todo...)
		} else if len(r.ren) < 2 {
			for _, name := range sortedKeys(res.x.outer) {
				if r.ren[name] != "" {
					continue
				}
				for _, c := range sortedKeys(res.x.outer[name]) {
					ren := map[string]string{name: c}
					for k, v := range r.ren {
						ren[k] = v
					}
					todo = append(todo, reading{r.loops, ren, r.outer})
				}
			}
		}
		if res.Bail != "" || r.loops == nil && r.ren == nil && !r.outer {
			continue
		}
		if pr.settles(res, until) {
			return res
		}
	}
	return nil
}

// settles: every obligation is discharged.
func (pr *Program) settles(res *FnResult, until time.Time) bool {
	if ok, _ := res.x.cover(); !ok {
		return false
	}
	var bad int32
	var wg sync.WaitGroup
	sem := make(chan bool, 12)
	for _, o := range res.Obls {
		if o.Status != "" {
			if o.Status != "proved" {
				return false
			}
			continue
		}
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if atomic.LoadInt32(&bad) != 0 || time.Now().After(until) {
				atomic.StoreInt32(&bad, 1)
				return
			}
			o.Status, o.By, o.Secs, o.Output = res.x.prove(o.ass, o.goal, nil)
			if o.Status != "proved" {
				atomic.StoreInt32(&bad, 1)
				if os.Getenv("GCV_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "   not proved:", o.Name)
				}
			}
		}(o)
	}
	wg.Wait()
	return atomic.LoadInt32(&bad) == 0
}
