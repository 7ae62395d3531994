package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/mkobetic/coin"
)

const vDefs = "commodity CAD\n  format 1.00 CAD\n\n"
const vAccs = "account A\n  commodity CAD\naccount B\n  commodity CAD\naccount A:Cash\n  commodity CAD\n"

func init() { vSub["rewrite"] = vRewrite }

// vRewrite runs a command on the files of a directory, with a limit to how long files can get.
// VERIF_ARG: directory, kind, limit (negative: none), whether exceeding it kills, files
func vRewrite() {
	a := strings.Split(os.Getenv("VERIF_ARG"), "\n")
	dir, kind := a[0], a[1]
	var limit int64
	fmt.Sscan(a[2], &limit)
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	coin.CommoditiesFile, coin.AccountsFile = filepath.Join(dir, "db", "commodities.coin"), filepath.Join(dir, "db", "accounts.coin")
	var c command
	args := a[4:]
	switch kind {
	case "format":
		c, args = (*cmdFormat)(nil).newCommand("format"), append([]string{"-i"}, args...)
	case "trim":
		c, args = (*cmdFormat)(nil).newCommand("format"), append([]string{"-i", "-t"}, args...)
	case "modify":
		c, args = (*cmdModify)(nil).newCommand("modify"), append([]string{"-a", "A", "-tt:", "#seen"}, args...)
	case "test":
		c = (*cmdTest)(nil).newCommand("test")
	}
	if a[3] == "report" {
		signal.Ignore(syscall.SIGXFSZ)
	}
	c.Parse(args)
	c.init()
	if limit >= 0 {
		if err := syscall.Setrlimit(1, &syscall.Rlimit{Cur: uint64(limit), Max: uint64(limit)}); err != nil {
			panic(err)
		}
	}
	c.execute(os.Stdout)
	fmt.Println("DONE")
}

func vFiles(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			r, _ := filepath.Rel(dir, p)
			out[r] = string(b)
		}
		return nil
	})
	return out
}

func vWriteFiles(dir string, fs map[string]string) {
	os.RemoveAll(dir)
	for n, s := range fs {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
}

// vInOrder: the lines of the first text all occur in the second one, in their order.
func vInOrder(old, new string) bool {
	ls := strings.Split(new, "\n")
	for _, l := range strings.Split(strings.TrimRight(old, "\n"), "\n") {
		for {
			if len(ls) == 0 {
				return false
			}
			x := ls[0]
			ls = ls[1:]
			if x == l {
				break
			}
		}
	}
	return true
}

// vCanon: the words of the transactions of a file, in the order of their dates.
func vCanon(s string) string {
	return strings.Join(strings.Fields(s), " ")
}

func TestVerifRewrite(t *testing.T) {
	vRule("each case runs format -i, modify or test on 1..3 files in a scratch directory in a child process: once freely, then with several limits to the length of files, so that a write fails or the program ends at that point; afterwards every file must have its complete old or its complete new contents, files not named must be as before, and a run reported as successful must have rewritten all; free runs must keep every transaction (or test file line)")
	work, err := os.MkdirTemp("", "rewrite")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(work)
	r := vRand()
	type job struct {
		dir, kind string
		fs        map[string]string
		names     []string
		canon     map[string]string
		seed      int64
	}
	var mu sync.Mutex
	jobs := make(chan job)
	var wg sync.WaitGroup
	one := func(j job) {
		r := rand.New(rand.NewSource(j.seed))
		arg := func(limit int64, how string) string {
			return strings.Join(append([]string{j.dir, j.kind, fmt.Sprint(limit), how}, j.names...), "\n")
		}
		vWriteFiles(j.dir, j.fs)
		code, out := vChild("rewrite", arg(-1, "report"))
		free := vFiles(j.dir)
		in := fmt.Sprintf("%s %v %q", j.kind, j.names, j.fs)
		if code != 0 || !strings.Contains(out, "DONE") {
			vBad("fails", "input: %s; the free run ended with %d: %s", in, code, out)
			return
		}
		max := 0
		for _, n := range j.names {
			if len(free[n]) > max {
				max = len(free[n])
			}
			if j.kind == "test" && !vInOrder(j.fs[n], free[n]) {
				vBad("lost", "input: %s; lines are missing from %s: %q", in, n, free[n])
			}
			if want, ok := j.canon[n]; ok && vCanon(free[n]) != want {
				vBad("lost", "input: %s; %s became %q instead of the transactions %q", in, n, free[n], want)
			}
		}
		if j.kind == "test" {
			results := map[string]string{}
			for _, n := range j.names {
				for i, part := range strings.Split(free[n], "\ntest ")[1:] {
					cmd, body, _ := strings.Cut(part, "\n")
					body, _, ended := strings.Cut("\n"+body, "\nend test")
					first, seen := results[cmd]
					if !ended || seen && first != body {
						vBad("result", "input: %s; test %d of %s (%s) has the result %q, another one of the same command %q", in, i, n, cmd, body, first)
					}
					results[cmd] = body
				}
			}
		}
		check := func(files map[string]string, done bool, how string) {
			for n, s := range j.fs {
				named := false
				for _, m := range j.names {
					named = named || m == n
				}
				got, ok := files[n]
				switch {
				case ok && named && got == free[n]:
				case ok && got == s && !(named && done && got != free[n]):
				case !ok:
					vBad("removed", "input: %s; %s: %s is gone", in, how, n)
				default:
					vBad("contents", "input: %s; %s: %s is %q, neither the old %q nor the new %q", in, how, n, got, s, free[n])
				}
			}
		}
		check(free, true, "free run")
		vCase(in, true)
		k := 3
		if vThorough {
			k = 8
		}
		for i := 0; i < k; i++ {
			limit := int64(r.Intn(max + 2))
			if r.Intn(3) == 0 && max > 0 {
				limit = int64(max - 1 - r.Intn(3))
			}
			how := []string{"report", "report", "die"}[r.Intn(3)]
			vWriteFiles(j.dir, j.fs)
			_, out := vChild("rewrite", arg(limit, how))
			check(vFiles(j.dir), strings.Contains(out, "DONE"), fmt.Sprintf("files limited to %d bytes (%s)", limit, how))
			vCase(fmt.Sprintf("%s %d %s", in, limit, how), true)
		}
		os.RemoveAll(j.dir)
		_ = &mu
	}
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				one(j)
			}
		}()
	}
	for n := 0; n < vN(60) && !vTime(12); n++ {
		kind := []string{"format", "modify", "test", "format", "trim"}[r.Intn(5)]
		j := job{dir: filepath.Join(work, fmt.Sprint("c", n)), kind: kind, fs: map[string]string{}, canon: map[string]string{}, seed: r.Int63()}
		j.fs["db/commodities.coin"], j.fs["db/accounts.coin"] = vDefs, vAccs
		j.fs["other.coin"] = "2001/01/01 Other\n  A  1.00 CAD\n  B\n"
		nf := 1 + r.Intn(3)
		inclAt := r.Intn(2)
		for f := 0; f < nf; f++ {
			name := fmt.Sprintf("f%d.coin", f)
			j.names = append(j.names, name)
			var sb, canon strings.Builder
			incl := ""
			if kind == "test" && f == 0 { // the file given; it includes the others, before its own tests or after them
				sb.WriteString(vDefs + vAccs)
				for g := 1; g < nf; g++ {
					incl += fmt.Sprintf("\ninclude f%d.coin\n", g)
				}
				if inclAt == 0 {
					sb.WriteString(incl + "\n")
					incl = ""
				}
			}
			nt := r.Intn(6)
			if r.Intn(10) == 0 {
				nt = 200 // more than a buffer holds
			}
			for i := 0; i < nt; i++ {
				q := 100 + r.Intn(100000)
				acc := []string{"A", "B", "A:Cash"}[r.Intn(3)]
				date := fmt.Sprintf("2001/%02d/%02d", 1+i/25, 1+i%25)
				fmt.Fprintf(&sb, "%s Payee%d of %s\n  %-*s  %d.%02d CAD\n  %s  -%d.%02d CAD\n\n", date, i, name, 3+r.Intn(12), acc, q/100, q%100, "B", q/100, q%100)
				seen := ""
				if kind == "modify" && acc == "A" {
					seen = " ; #seen"
				}
				fmt.Fprintf(&canon, "%s Payee%d of %s%s %s %d.%02d CAD B -%d.%02d CAD ", date, i, name, seen, acc, q/100, q%100, q/100, q%100)
			}
			if kind == "test" {
				for i := r.Intn(4); i >= 0; i-- {
					fmt.Fprintf(&sb, "; a remark\n\ntest %s\nend test\n\n", []string{"register A", "register B", "stats", "balance", "accounts"}[r.Intn(5)])
				}
				sb.WriteString("; the end\n" + incl)
			} else {
				j.canon[name] = vCanon(canon.String())
			}
			j.fs[name] = sb.String()
		}
		jobs <- j
	}
	close(jobs)
	wg.Wait()
}
