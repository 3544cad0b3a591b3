// targets records impurities (from scratch, updated, from counts) and predictions of every target.
package main

import (
	"math"
	"math/rand"
	"strconv"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

func number(s string) string {
	x, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return "nan"
	}
	return vt.Num(x)
}

func known(c *vt.TargetCase, g []int) bool {
	if c.Feat == nil {
		return len(g) > 0
	}
	for _, i := range g {
		if !c.Feat.IsMissing(i) {
			return true
		}
	}
	return false
}

func counter(n int) *[]int { x := make([]int, n); return &x }

func fromCounts(c *vt.TargetCase, allocs *CF.BestSplitAllocs, g []int, cnt *[]int) (float64, bool) {
	switch t := c.Target.(type) {
	case *CF.DenseCatFeature:
		return t.ImpFromCounts(len(g), cnt), true
	case *CF.EntropyTarget:
		return t.ImpFromCounts(len(g), cnt), true
	case *CF.DEntropyTarget:
		return t.ImpFromCounts(len(g), cnt), true
	case *CF.WRFTarget:
		return t.ImpFromCounts(cnt), true
	case *CF.RegretTarget:
		return t.ImpFromCounts(len(g), cnt), true
	case *CF.NPTarget:
		return t.ImpFromCounts(len(g), cnt), true
	case *CF.AdaBoostTarget:
		return t.ImpFromCounts(&g, cnt), true
	case *CF.AdaCostTarget:
		return t.ImpFromCounts(&g, cnt), true
	}
	return 0, false
}

func one(c []int) []int { return vt.One(c) }

func episode(r *rand.Rand, c *vt.TargetCase, n int, id string) {
	ev := []vt.M{}
	before := vt.Snapshot(c.FM)
	msg := vt.Catch(func() {
		var allocs *CF.BestSplitAllocs
		if c.Feat != nil {
			t := c.Feat.(CF.Target)
			allocs = CF.NewBestSplitAllocs(n, t)
		} else {
			allocs = CF.NewBestSplitAllocs(n, c.FM.Data[0])
		}
		// leftovers of an earlier use
		for _, p := range []*[]int{allocs.LCounter, allocs.RCounter, allocs.Counter} {
			for i := range *p {
				(*p)[i] = r.Intn(9)
			}
		}
		allocs.Lsum, allocs.Rsum, allocs.Msum, allocs.Lsum_sqr, allocs.Rsum_sqr = 7, -3, 1, 9, 11
		for rep := 0; rep < 3; rep++ {
			g := r.Perm(n)[:1+r.Intn(n)]
			if !known(c, g) {
				continue
			}
			ev = append(ev, vt.M{"op": "imp", "cases": one(g), "got": vt.Num(c.Target.Impurity(&g, allocs.Counter))})
			if x, ok := fromCounts(c, allocs, g, allocs.Counter); ok {
				ev = append(ev, vt.M{"op": "counts", "cases": one(g), "got": vt.Num(x)})
			}
			if c.Type == "density" && len(g) < 2 {
				continue
			}
			p := c.Target.FindPredicted(vt.Ints(g))
			h := vt.Ints(g)
			r.Shuffle(len(h), func(i, j int) { h[i], h[j] = h[j], h[i] })
			q := c.Target.FindPredicted(h)
			ev = append(ev, vt.M{"op": "pred", "cases": one(g), "got": p, "again": q, "num": number(p), "numagain": number(q)})
		}
		// a split scanned from left to right, as the numeric search does
		for rep := 0; rep < 2; rep++ {
			g := r.Perm(n)
			if len(g) < 2 {
				break
			}
			m := []int{}
			if k := r.Intn(3); k > 0 && len(g) > 4 && c.Type != "hdist" && c.Type != "gradboost" {
				m, g = g[:k], g[k:]
				if !known(c, m) {
					m = m[:0]
				}
			}
			k := 1 + r.Intn(len(g)-1)
			l, rr := g[:k], g[k:]
			if !known(c, l) || !known(c, rr) {
				continue
			}
			mp := &m
			if len(m) == 0 && r.Intn(2) == 0 {
				mp = nil
			}
			ev = append(ev, vt.M{"op": "start", "l": one(l), "r": one(rr), "m": one(m), "got": vt.Num(c.Target.SplitImpurity(&l, &rr, mp, allocs))})
			for k < len(g)-1 {
				d := 1 + r.Intn(3)
				if k+d >= len(g) {
					break
				}
				l, rr = g[:k+d], g[k+d:]
				mv := g[k : k+d]
				if !known(c, rr) {
					break
				}
				ev = append(ev, vt.M{"op": "move", "moved": one(mv), "got": vt.Num(c.Target.UpdateSImpFromAllocs(&l, &rr, mp, allocs, &mv))})
				k += d
			}
		}
	})
	if msg != "" {
		ev = append(ev, vt.M{"op": "panic", "msg": msg})
	}
	ev = append(ev, vt.M{"op": "after", "same": vt.Snapshot(c.FM) == before})
	vt.Put(vt.M{"id": id, "target": c.T, "ev": ev})
}

// predictions of groups that hold cases of unknown class
func unknown(r *rand.Rand, c *vt.TargetCase, n int, id string) {
	ev := []vt.M{}
	before := vt.Snapshot(c.FM)
	msg := vt.Catch(func() {
		for rep := 0; rep < 4; rep++ {
			g := r.Perm(n)[:1+r.Intn(n)]
			if !known(c, g) {
				continue
			}
			p := c.Target.FindPredicted(vt.Ints(g))
			h := vt.Ints(g)
			r.Shuffle(len(h), func(i, j int) { h[i], h[j] = h[j], h[i] })
			q := c.Target.FindPredicted(h)
			ev = append(ev, vt.M{"op": "pred", "cases": one(g), "got": p, "again": q, "num": number(p), "numagain": number(q)})
		}
	})
	if msg != "" {
		ev = append(ev, vt.M{"op": "panic", "msg": msg})
	}
	ev = append(ev, vt.M{"op": "after", "same": vt.Snapshot(c.FM) == before})
	vt.Put(vt.M{"id": id, "target": c.T, "ev": ev})
}

// gradient boosting for classes predicts from pseudo residuals
func gradclass(r *rand.Rand, n int, id string) {
	col := vt.CatCol(r, "C:t", n, 2, 0)
	col.Pre = vt.Labels(2)
	pos := col.Pre[r.Intn(2)]
	np := 0
	for _, l := range col.Lab {
		if l == pos {
			np++
		}
	}
	if np == 0 || np == n {
		return
	}
	tab := &vt.Table{Cols: []vt.Col{col}}
	fm := tab.FM()
	t := CF.NewGradBoostClassTarget(fm.Data[0].(CF.CatFeature), 0.5, pos)
	// some rounds of boosting move the residuals about
	for k := r.Intn(3); k > 0; k-- {
		p := r.Perm(n)
		cut := r.Intn(n)
		leaves := [][]int{p[:cut], p[cut:]}
		preds := []string{strconv.FormatFloat(math.Round(r.NormFloat64()*8)/8, 'g', -1, 64), "0.25"}
		t.Boost(&leaves, &preds)
	}
	val, act, miss := make([]string, n), make([]string, n), make([]bool, n)
	for i := 0; i < n; i++ {
		val[i] = vt.Num(t.Get(i))
		act[i] = "0"
		if col.Lab[i] == pos {
			act[i] = "1"
		}
	}
	T := vt.M{"type": "gradclass", "val": val, "miss": miss, "cats": []string{}, "par": vt.M{"actual": act}}
	ev := []vt.M{}
	for rep := 0; rep < 3; rep++ {
		g := r.Perm(n)[:1+r.Intn(n)]
		p := t.FindPredicted(vt.Ints(g))
		h := vt.Ints(g)
		r.Shuffle(len(h), func(i, j int) { h[i], h[j] = h[j], h[i] })
		q := t.FindPredicted(h)
		ev = append(ev, vt.M{"op": "pred", "cases": one(g), "got": p, "again": q, "num": number(p), "numagain": number(q)})
	}
	same := true
	for i := range val {
		same = same && vt.Num(t.Get(i)) == val[i]
	}
	ev = append(ev, vt.M{"op": "after", "same": same})
	vt.Put(vt.M{"id": id, "target": T, "ev": ev})
}

func main() {
	r := vt.Start()
	per := vt.N(60, 700)
	for i := 0; i < per; i++ {
		for _, typ := range vt.AllTypes {
			n := 1 + r.Intn(14)
			if i%10 == 9 {
				n = 20 + r.Intn(40)
			}
			if i%60 == 39 && typ != "trans" {
				n = 400 + r.Intn(300) // counts beyond any small number
			}
			preds := []vt.Col{}
			if typ == "trans" {
				preds = vt.RandTable(r, n, 1+r.Intn(2), r.Intn(2), 4, []float64{0, 0.3}[r.Intn(2)]).Cols
			}
			episode(r, vt.MakeTarget(r, typ, n, preds, []float64{0, 0.3}[r.Intn(2)]), n, vt.ID(typ, i))
		}
		for _, typ := range []string{"gini", "entropy", "wrf", "ada", "adacost"} {
			n := 1 + r.Intn(14)
			unknown(r, vt.MakeTarget(r, typ, n, nil, []float64{-0.3, -0.7}[r.Intn(2)]), n, vt.ID("un"+typ, i))
		}
		n := 2 + r.Intn(12)
		episode(r, vt.MakeDensity(r, n, vt.RandTable(r, n, 1+r.Intn(2), r.Intn(2), 3, []float64{0, 0.2}[r.Intn(2)]).Cols), n, vt.ID("density", i))
		gradclass(r, 2+r.Intn(12), vt.ID("gradclass", i))
	}
	vt.Done()
}
