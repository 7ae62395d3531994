package coin

import (
	"fmt"
	"testing"
	"time"
)

func TestVerifWalks(t *testing.T) {
	vRule("random trees of 1 to 14 accounts with random closing dates, under Root or not: both walks from every account, depth and closing of every account, against the parent table")
	r := vRand()
	defer func() { Root = nil }()
	for n := 0; n < vN(20000) && !vTime(5); n++ {
		k := 1 + r.Intn(14)
		if r.Intn(50) == 0 {
			k = 60
		}
		par := make([]int, k)
		as := make([]*Account, k)
		own := make([]bool, k)
		kids := make([][]int, k)
		in := ""
		for i := range as {
			as[i] = &Account{Name: fmt.Sprint(i), FullName: fmt.Sprint(i)}
			par[i] = -1
			if i > 0 {
				par[i] = r.Intn(i)
				switch r.Intn(4) {
				case 0:
					par[i] = i - 1
				case 1:
					par[i] = 0
				}
				as[i].Parent = as[par[i]]
				as[par[i]].Children = append(as[par[i]].Children, as[i])
				kids[par[i]] = append(kids[par[i]], i)
			}
			if r.Intn(6) == 0 {
				own[i] = true
				as[i].Closed = []time.Time{time.Date(2020, 1, 1+i, 12, 0, 0, 0, time.UTC), time.Unix(0, 0), time.Date(9999, 1, 1, 0, 0, 0, 0, time.UTC)}[r.Intn(3)]
			}
			in += fmt.Sprintf("%d<%d", i, par[i])
			if own[i] {
				in += "c"
			}
			in += " "
		}
		Root = nil
		withRoot := r.Intn(3) > 0
		if withRoot {
			Root = as[0]
		} else if r.Intn(2) == 0 {
			Root = &Account{}
		}
		in += fmt.Sprint("root ", withRoot)
		var pre, post func(i int) []int
		pre = func(i int) []int {
			o := []int{i}
			for _, c := range kids[i] {
				o = append(o, pre(c)...)
			}
			return o
		}
		post = func(i int) []int {
			var o []int
			for _, c := range kids[i] {
				o = append(o, post(c)...)
			}
			return append(o, i)
		}
		idx := map[*Account]int{}
		for i, a := range as {
			idx[a] = i
		}
		for i, a := range as {
			vTry("walk", in, func() {
				var got []int
				a.WithChildrenDo(func(d *Account) { got = append(got, idx[d]) })
				if fmt.Sprint(got) != fmt.Sprint(pre(i)) {
					vBad("parents first", "tree %s: walk from %d visits %v, should be %v", in, i, got, pre(i))
				}
				got = nil
				a.FirstWithChildrenDo(func(d *Account) { got = append(got, idx[d]) })
				if fmt.Sprint(got) != fmt.Sprint(post(i)) {
					vBad("children first", "tree %s: walk from %d visits %v, should be %v", in, i, got, post(i))
				}
			})
			depth, cl := 1, own[i]
			for p := par[i]; p >= 0; p = par[p] {
				if !(withRoot && p == 0) {
					depth++
				}
				cl = cl || own[p]
			}
			vTry("depth", in, func() {
				if d := a.Depth(); d != depth {
					vBad("depth", "tree %s: depth of %d is %d, should be %d", in, i, d, depth)
				}
				if c := a.IsClosed(); c != cl {
					vBad("closed", "tree %s: %d closed is %v, should be %v", in, i, c, cl)
				}
			})
		}
		for i, a := range as {
			p := -1
			if a.Parent != nil {
				p = idx[a.Parent]
			}
			if p != par[i] || len(a.Children) != len(kids[i]) {
				vBad("changed", "tree %s: a walk changed account %d", in, i)
			}
		}
		vCase(in, k > 2)
	}
}
