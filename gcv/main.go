package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblReport struct {
	Name   string  `json:"name"`
	Pos    string  `json:"pos,omitempty"`
	Kind   string  `json:"kind"`
	Status string  `json:"status"`
	By     string  `json:"by,omitempty"`
	Secs   float64 `json:"secs"`
	Output string  `json:"output,omitempty"`
}

type FnReport struct {
	Name    string      `json:"name"`
	Bail    string      `json:"bail,omitempty"`
	Obls    []OblReport `json:"obligations"`
	Inlined []string    `json:"inlined,omitempty"`
	Used    []string    `json:"contracts_used,omitempty"`
	Lib     []string    `json:"library_semantics,omitempty"`
	Cover   string      `json:"cover,omitempty"`
}

type Report struct {
	Functions  []FnReport         `json:"functions"`
	Lemmas     []FnReport         `json:"lemmas"`
	Trusted    []string           `json:"trusted"`
	Axioms     []string           `json:"axioms"`
	Total      int                `json:"total"`
	Discharged int                `json:"discharged"`
	SolverSecs map[string]float64 `json:"solver_secs"`
	Reread     []string           `json:"reread"` // functions proved under another reading of their loop invariants
	ByBackend  map[string]int     `json:"by_backend"`
	Wall       float64            `json:"wall_s"`
	Failed     []OblReport        `json:"failed"`
}

func main() {
	var (
		repo      = flag.String("repo", "/repo", "")
		contracts = flag.String("contracts", "/verif/contracts", "")
		props     = flag.String("props", "", "comma separated property ids")
		fns       = flag.String("fn", "", "verify the contracts whose name contains this")
		dump      = flag.String("ssa", "", "dump SSA of functions whose name contains this")
		ext       = flag.Bool("ext", false, "list external callees")
		out       = flag.String("o", "", "write a JSON report")
		verbose   = flag.Bool("v", false, "")
		keep      = flag.String("keep", "", "keep SMT files in this directory")
		timeout   = flag.Int("t", 20, "solver timeout in seconds")
		budget    = flag.Int("budget", 400, "seconds after which undischarged obligations are given up")
		again     = flag.Int("again", 150, "seconds for other readings of the invariants of functions that failed")
		closure   = flag.Bool("closure", true, "also verify the contracts used")
	)
	flag.Parse()
	t0 := time.Now()
	pr, err := loadProgram(*repo, *contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gcv: cannot load the code:", err)
		os.Exit(3)
	}
	pr.opts = &Options{timeout: *timeout, keep: *keep, verbose: *verbose, deadline: t0.Add(time.Duration(*budget) * time.Second)}
	if *dump != "" {
		for _, n := range pr.fnOrder {
			if strings.Contains(n, *dump) {
				pr.fns[n].WriteTo(os.Stdout)
			}
		}
		return
	}
	if *ext {
		listExt(pr)
		return
	}
	var work []*Contract
	want := map[string]bool{}
	for _, p := range strings.Split(*props, ",") {
		if p != "" {
			want[p] = true
		}
	}
	for _, n := range pr.specs.Order {
		c := pr.specs.Contracts[n]
		sel := *fns != "" && strings.Contains(n, *fns)
		for _, p := range c.Props {
			if want[p] {
				sel = true
			}
		}
		if sel && c.Trusted == "" {
			work = append(work, c)
		}
	}
	rep := &Report{SolverSecs: map[string]float64{}, ByBackend: map[string]int{}}
	done := map[string]bool{}
	var mu sync.Mutex
	trusted := map[string]string{}
	results := map[string]*FnResult{}
	retried := map[string]bool{}
	for len(work) > 0 {
		var next []string
		var wg sync.WaitGroup
		for _, c := range work {
			done[c.Name] = true
		}
		for _, c := range work {
			wg.Add(1)
			go func(c *Contract) {
				defer wg.Done()
				ts := time.Now()
				r := pr.verifyFunc(c)
				te := time.Since(ts)
				var cwg sync.WaitGroup
				var cok bool
				var cv string
				if r.Bail == "" {
					cwg.Add(1)
					go func() {
						defer cwg.Done()
						cok, cv = r.x.cover()
					}()
					dischargeAll(r.x, r.Obls, nil)
				}
				cwg.Wait()
				if r.Bail == "" {
					if !cok {
						r.Bail = "vacuous: no return is reachable under the assumptions"
					} else {
						r.Cover = cv
					}
				}
				if *verbose {
					for _, o := range r.Obls {
						if o.Secs > 1 {
							fmt.Fprintf(os.Stderr, "   slow %.1fs %s by %s (%s)\n", o.Secs, o.Name, o.By, o.Status)
						}
					}
					fmt.Fprintf(os.Stderr, "%s: exec %.2fs total %.2fs\n", c.Name, te.Seconds(), time.Since(ts).Seconds())
				}
				mu.Lock()
				defer mu.Unlock()
				results[c.Name] = r
				next = append(next, pr.usedBy(r, trusted, *closure)...)
			}(c)
		}
		wg.Wait()
		work = nil
		next = slices.DeleteFunc(next, func(n string) bool { return done[n] })
		if len(next) == 0 {
			// other readings of the invariants for the functions that failed
			until := time.Now().Add(time.Duration(*again) * time.Second)
			if until.After(pr.opts.deadline) {
				pr.opts.deadline = until
			}
			for _, n := range sortedKeys(results) {
				if r := results[n]; !r.settled() && !retried[n] && time.Now().Before(until) {
					retried[n] = true
					atomic.StoreInt32(&failCount, 3) // short attempts
					if r2 := pr.reread(pr.specs.Contracts[n], r, until); r2 != nil {
						results[n] = r2
						rep.Reread = append(rep.Reread, n)
						next = append(next, pr.usedBy(r2, trusted, *closure)...)
					}
				}
			}
			atomic.StoreInt32(&failCount, 0)
		}
		for _, n := range next {
			if !done[n] {
				done[n] = true
				work = append(work, pr.specs.Contracts[n])
			}
		}
	}
	for _, n := range sortedKeys(results) {
		r := results[n]
		fr := FnReport{Name: n, Bail: r.Bail, Cover: r.Cover, Inlined: r.Inlined, Lib: r.Lib, Used: r.Used}
		for _, o := range r.Obls {
			if o.Status == "" {
				o.Status = "unknown"
			}
			fr.Obls = append(fr.Obls, OblReport{o.Name, o.Pos, o.Kind, o.Status, o.By, o.Secs, o.Output})
		}
		sort.Strings(fr.Used)
		sort.Strings(fr.Inlined)
		sort.Strings(fr.Lib)
		rep.Functions = append(rep.Functions, fr)
	}
	// lemmas
	var wg sync.WaitGroup
	for _, a := range pr.specs.Axioms {
		if !a.Lemma {
			rep.Axioms = append(rep.Axioms, a.Label)
			continue
		}
		wg.Add(1)
		go func(a *Axiom) {
			defer wg.Done()
			r := pr.verifyLemma(a)
			if r.Bail == "" {
				dischargeAll(r.x, r.Obls, a)
			}
			fr := FnReport{Name: "lemma " + a.Label, Bail: r.Bail}
			for _, o := range r.Obls {
				fr.Obls = append(fr.Obls, OblReport{o.Name, o.Pos, o.Kind, o.Status, o.By, o.Secs, o.Output})
			}
			mu.Lock()
			rep.Lemmas = append(rep.Lemmas, fr)
			mu.Unlock()
		}(a)
	}
	wg.Wait()
	sort.Slice(rep.Functions, func(i, j int) bool { return rep.Functions[i].Name < rep.Functions[j].Name })
	sort.Slice(rep.Lemmas, func(i, j int) bool { return rep.Lemmas[i].Name < rep.Lemmas[j].Name })
	for _, list := range [][]FnReport{rep.Functions, rep.Lemmas} {
		for _, f := range list {
			if f.Bail != "" {
				rep.Total++
				rep.Failed = append(rep.Failed, OblReport{Name: f.Name + "/unsupported", Kind: "bail", Status: "unknown", Output: f.Bail})
			}
			for _, o := range f.Obls {
				rep.Total++
				if o.Status == "proved" {
					rep.Discharged++
					rep.ByBackend[o.By]++
				} else {
					rep.Failed = append(rep.Failed, o)
				}
			}
		}
	}
	for _, k := range sortedKeys(trusted) {
		rep.Trusted = append(rep.Trusted, k+": "+trusted[k])
	}
	rep.SolverSecs = solverSecs
	rep.Wall = time.Since(t0).Seconds()
	if *out != "" {
		j, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, j, 0o644)
	}
	for _, f := range rep.Functions {
		ok := 0
		for _, o := range f.Obls {
			if o.Status == "proved" {
				ok++
			}
		}
		if *verbose || ok != len(f.Obls) || f.Bail != "" {
			fmt.Printf("%-50s %d/%d %s\n", f.Name, ok, len(f.Obls), f.Bail)
		}
	}
	for _, o := range rep.Failed {
		fmt.Printf("FAILED %s (%s) %s: %s\n", o.Name, o.Pos, o.Status, o.Output)
	}
	fmt.Printf("obligations %d discharged %d in %.1fs\n", rep.Total, rep.Discharged, rep.Wall)
	if len(rep.Failed) > 0 {
		os.Exit(1)
	}
}

func listExt(pr *Program) {
	for _, n := range pr.fnOrder {
		f := pr.fns[n]
		set := map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						set["("+ifaceName(cc.Value.Type())+")."+cc.Method.Name()] = true
					} else if fn := cc.StaticCallee(); fn != nil && len(fn.Blocks) == 0 {
						set[pr.fname(fn)] = true
					}
				}
			}
		}
		fmt.Printf("%s: %s\n", n, strings.Join(sortedKeys(set), ", "))
	}
}

// usedBy lists the functions whose contracts a proof used; those without a proof of their own are noted as trusted.
func (pr *Program) usedBy(r *FnResult, trusted map[string]string, closure bool) (next []string) {
	for _, u := range r.Used {
		uc := pr.specs.Contracts[u]
		if uc.Trusted != "" || pr.fns[u] == nil || len(pr.fns[u].Blocks) == 0 {
			why := uc.Trusted
			if why == "" {
				why = "no source in scope"
			}
			trusted[u] = why
		} else if closure {
			next = append(next, u)
		}
	}
	return next
}

// settled: everything about the function is proved.
func (r *FnResult) settled() bool {
	for _, o := range r.Obls {
		if o.Status != "proved" {
			return false
		}
	}
	return r.Bail == ""
}
