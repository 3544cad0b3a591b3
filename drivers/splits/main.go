// splits records how coded and readable splits partition lists of cases.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

func splitJSON(s *CF.Splitter) vt.M {
	m := vt.M{"kind": "cat", "feat": s.Feature, "value": "0", "left": []string{}}
	if s.Numerical {
		m["kind"] = "num"
		m["value"] = vt.Num(s.Value)
	} else {
		m["left"] = vt.TrueKeys(s.Left)
	}
	return m
}

func observe(id string, tab *vt.Table, fm *CF.FeatureMatrix, fi int, coded interface{}, lists [][]int) {
	f := fm.Data[fi]
	s := f.DecodeSplit(coded)
	ev := []vt.M{}
	for _, cases := range lists {
		a := vt.Ints(cases)
		var e vt.M
		p := vt.Catch(func() {
			l, r, m := f.Split(coded, a)
			e = vt.M{"op": "split", "cases": vt.One(cases), "l": vt.One(l), "r": vt.One(r), "m": vt.One(m), "after": vt.One(a)}
		})
		if p != "" {
			e = vt.M{"op": "panic", "msg": p}
		}
		ev = append(ev, e)
		a = vt.Ints(cases)
		if p = vt.Catch(func() {
			li, ri := f.SplitPoints(coded, &a)
			e = vt.M{"op": "points", "cases": vt.One(cases), "li": li, "ri": ri, "after": vt.One(a)}
		}); p != "" {
			e = vt.M{"op": "panic", "msg": p}
		}
		ev = append(ev, e)
		a = vt.Ints(cases)
		if p = vt.Catch(func() {
			l, r, m := s.Split(fm, a)
			e = vt.M{"op": "splitter", "cases": vt.One(cases), "l": vt.One(l), "r": vt.One(r), "m": vt.One(m), "after": vt.One(a)}
		}); p != "" {
			e = vt.M{"op": "panic", "msg": p}
		}
		ev = append(ev, e)
	}
	vt.Put(vt.M{"id": id, "data": []vt.M{tab.Cols[fi].JSON()}, "split": splitJSON(s), "ev": ev})
}

func lists(r *rand.Rand, n int) [][]int {
	out := [][]int{r.Perm(n)}
	c := make([]int, r.Intn(2*n+1))
	for i := range c {
		c[i] = r.Intn(n)
	}
	out = append(out, c)
	// a list that is already partitioned, or reversed, comes from another split
	d := vt.Ints(out[0])
	for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
		d[i], d[j] = d[j], d[i]
	}
	return append(out, d)
}

func main() {
	r := vt.Start()
	// 1. every pattern of sides, on each kind of feature
	f, err := os.Open(*vt.Gen)
	if err != nil {
		panic(err)
	}
	many := vt.Labels(40)
	mk := []struct {
		name  string
		tab   *vt.Table
		coded interface{}
	}{
		{"num", &vt.Table{Cols: []vt.Col{{Name: "N:x", Num: []float64{1, 3, 0}, Miss: []bool{false, false, true}}}}, 2.0},
		{"bin", &vt.Table{Cols: []vt.Col{{Name: "C:x", Cat: true, Lab: []string{"a", "b", ""}, Miss: []bool{false, false, true}, Pre: []string{"a", "b"}}}}, 1},
		{"cat", &vt.Table{Cols: []vt.Col{{Name: "C:x", Cat: true, Lab: []string{"c2", "c3", ""}, Miss: []bool{false, false, true}, Pre: many[:5]}}}, 1 | 1<<2},
		{"big", &vt.Table{Cols: []vt.Col{{Name: "C:x", Cat: true, Lab: []string{"c38", "c3", ""}, Miss: []bool{false, false, true}, Pre: many}}}, new(big.Int).Lsh(big.NewInt(1), 38)},
	}
	sc := bufio.NewScanner(f)
	k := 0
	for sc.Scan() {
		var x struct{ Pat []string }
		if err := json.Unmarshal(sc.Bytes(), &x); err != nil {
			panic(err)
		}
		cases := []int{}
		for _, s := range x.Pat {
			cases = append(cases, map[string]int{"L": 0, "R": 1, "M": 2}[s])
		}
		for _, m := range mk {
			observe(fmt.Sprintf("pat-%s-%d", m.name, k), m.tab, m.tab.FM(), 0, m.coded, [][]int{cases})
		}
		k++
	}
	// 2. splits found by the search, over every kind of feature and target
	for i := 0; i < vt.N(400, 4000); i++ {
		n := 2 + r.Intn(24)
		var col vt.Col
		pm := 0.0
		if r.Intn(2) == 0 {
			pm = r.Float64() * 0.5
		}
		ncats := []int{1, 2, 3, 5, 6, 12, 30, 31, 45, 70}[r.Intn(10)]
		if r.Intn(3) == 0 {
			col = vt.NumCol(r, "N:x", n, 1+r.Intn(n), pm)
			if r.Intn(2) == 0 {
				vt.Near(r, &col)
			}
		} else {
			col = vt.CatCol(r, "C:x", n, ncats, pm)
			col.Pre = vt.Labels(ncats)
			r.Shuffle(ncats, func(a, b int) { col.Pre[a], col.Pre[b] = col.Pre[b], col.Pre[a] })
		}
		tg := vt.NumCol(r, "N:t", n, 6, 0)
		if r.Intn(2) == 0 {
			tg = vt.CatCol(r, "C:t", n, 2+r.Intn(3), 0)
		}
		tab := &vt.Table{Cols: []vt.Col{col, tg}}
		fm := tab.FM()
		if cf, ok := fm.Data[0].(*CF.DenseCatFeature); ok && r.Intn(3) == 0 {
			cf.RandomSearch = true
		}
		target := fm.Data[1].(CF.Target)
		allocs := CF.NewBestSplitAllocs(n, target)
		cases := r.Perm(n)
		var coded interface{}
		if p := vt.Catch(func() {
			coded, _, _ = fm.Data[0].BestSplit(target, &cases, target.Impurity(&cases, allocs.Counter), 1+r.Intn(3), r.Intn(4) == 0, allocs)
		}); p != "" {
			vt.Put(vt.M{"id": vt.ID("search-panic", i), "data": []vt.M{}, "split": vt.M{}, "ev": []vt.M{{"op": "panic", "msg": p}}})
			continue
		}
		if coded != nil {
			observe(vt.ID("found", i), tab, fm, 0, coded, lists(r, n))
		}
		// 3. splits a caller constructs
		if col.Cat {
			b := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(ncats)))
			observe(vt.ID("made-big", i), tab, fm, 0, b, lists(r, n))
			if ncats < 62 {
				observe(vt.ID("made-int", i), tab, fm, 0, int(b.Int64()), lists(r, n))
			}
		} else {
			observe(vt.ID("made-num", i), tab, fm, 0, col.Num[r.Intn(n)], lists(r, n))
			a, b := col.Num[r.Intn(n)], col.Num[r.Intn(n)]
			observe(vt.ID("made-mid", i), tab, fm, 0, a/2+b/2, lists(r, n))
			observe(vt.ID("made-next", i), tab, fm, 0, math.Nextafter(a, b), lists(r, n))
		}
	}
	vt.Done()
}
