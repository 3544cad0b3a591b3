// grow records trees grown on known training cases.
package main

import (
	"fmt"
	"math/rand"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

type opts struct {
	cases, cands, oob                                 []int
	mtry, leaf, depth                                 int
	missing, force, vet, evaloob, extra, full, jungle bool
}

func names(fm *CF.FeatureMatrix, c []int) []string {
	r := []string{}
	for _, i := range c {
		r = append(r, fm.Data[i].GetName())
	}
	return r
}

func randOpts(r *rand.Rand, tc *vt.TargetCase, n int) *opts {
	o := &opts{}
	ok := []int{}
	for i := 0; i < n; i++ {
		if tc.Feat == nil || !tc.Feat.IsMissing(i) {
			ok = append(ok, i)
		}
	}
	if len(ok) == 0 {
		return nil
	}
	if r.Intn(2) == 0 {
		for i := 0; i < n; i++ {
			o.cases = append(o.cases, ok[r.Intn(len(ok))])
		}
	} else {
		r.Shuffle(len(ok), func(a, b int) { ok[a], ok[b] = ok[b], ok[a] })
		o.cases = append(o.cases, ok[:1+r.Intn(len(ok))]...)
	}
	in := map[int]bool{}
	for _, c := range o.cases {
		in[c] = true
	}
	for _, c := range ok {
		if !in[c] {
			o.oob = append(o.oob, c)
		}
	}
	k := len(tc.FM.Data) - 1
	p := r.Perm(k)
	if r.Intn(4) == 0 && k > 1 {
		p = p[:k-1]
	}
	for _, i := range p {
		o.cands = append(o.cands, i+1)
	}
	o.mtry = 1 + r.Intn(len(o.cands)+2)
	if r.Intn(2) == 0 {
		o.mtry = len(o.cands) + r.Intn(2)
	}
	o.leaf = 1 + r.Intn(3)
	o.depth = []int{0, 0, 0, 1, 2, 3}[r.Intn(6)]
	o.missing = r.Intn(2) == 0
	o.force = r.Intn(3) == 0
	if r.Intn(4) == 0 && len(o.oob) > 0 {
		o.vet = r.Intn(2) == 0
		o.evaloob = r.Intn(2) == 0
	}
	o.extra = r.Intn(6) == 0
	o.full = o.mtry >= len(o.cands) && !o.vet && !o.evaloob && !o.extra
	for _, c := range o.cands {
		if cf, ok := tc.FM.Data[c].(*CF.DenseCatFeature); ok && cf.NCats() > 5 {
			o.full = false
		}
	}
	return o
}

func (o *opts) grow(t *CF.Tree, tc *vt.TargetCase, imp *[]*CF.RunningMean, depth *[]int, allocs *CF.BestSplitAllocs) {
	f := t.Grow
	if o.jungle {
		f = t.GrowJungle
	}
	f(tc.FM, tc.Target, vt.Ints(o.cases), vt.Ints(o.cands), vt.Ints(o.oob), o.mtry, o.leaf, o.depth, o.missing, o.force, o.vet, o.evaloob, o.extra, imp, depth, allocs)
}

// mdl is variance with a price for every group, so that groups that are alike should be merged
type mdl struct {
	CF.NumFeature
	c float64
}

func (t *mdl) Impurity(cases *[]int, counter *[]int) float64 {
	if len(*cases) == 0 {
		return 0
	}
	s, m := 0.0, 0.0
	for _, i := range *cases {
		m += t.Get(i) / float64(len(*cases))
	}
	for _, i := range *cases {
		s += (t.Get(i) - m) * (t.Get(i) - m)
	}
	return (s + t.c) / float64(len(*cases))
}

func (t *mdl) SplitImpurity(l *[]int, r *[]int, m *[]int, allocs *CF.BestSplitAllocs) float64 {
	n, s := 0, 0.0
	for _, g := range []*[]int{l, r, m} {
		if g != nil {
			n += len(*g)
			s += float64(len(*g)) * t.Impurity(g, nil)
		}
	}
	return s / float64(n)
}

func (t *mdl) UpdateSImpFromAllocs(l *[]int, r *[]int, m *[]int, allocs *CF.BestSplitAllocs, moved *[]int) float64 {
	return t.SplitImpurity(l, r, m, allocs)
}

func main() {
	r := vt.Start()
	types := []string{"gini", "gini", "num", "num", "entropy", "dentropy", "wrf", "regret", "np", "ada", "adacost", "hdist", "trans", "l1", "ordinal", "numada", "gradboost"}
	per := vt.N(26, 300)
	for i := 0; i < per+per/4; i++ {
		for ti, typ := range types {
			many := i >= per // few of very many categories
			if many && ti%2 == 0 {
				typ = "gini"
			}
			jungle := (i+ti)%4 == 3 && !many
			n := 2 + r.Intn(13)
			halves := r.Intn(3) == 0
			if jungle && r.Intn(2) == 0 {
				n, halves = 12+r.Intn(8), true
			}
			big := r.Intn(5) == 0
			mc := 5
			if big {
				mc = 35
			}
			pm := []float64{0, 0, 0.3}[r.Intn(3)]
			preds := vt.RandTable(r, n, r.Intn(3), 1+r.Intn(3), mc, pm).Cols
			if halves { // features that are constant in parts of the data only
				b := vt.CatCol(r, "C:half", n, 2, 0)
				x := vt.NumCol(r, "N:left", n, 4, 0)
				y := vt.NumCol(r, "N:right", n, 4, 0)
				for k := range b.Lab {
					if b.Lab[k] == "c0" {
						x.Num[k] = 1
					} else {
						y.Num[k] = 1
					}
				}
				preds = append(preds, b, x, y)
			}
			merge := jungle && r.Intn(2) == 0
			if merge { // merging nodes pays for this one
				n = 10 + r.Intn(14)
				typ = "num"
				pm = []float64{0, 0.2, 0.4}[r.Intn(3)]
				preds = vt.RandTable(r, n, 2+r.Intn(3), 1+r.Intn(3), 4, pm).Cols
			}
			if many {
				n = 10 + r.Intn(10)
				b := vt.CatCol(r, "C:many", n, 31+r.Intn(10), pm)
				b.Pre = vt.Labels(31 + r.Intn(10))
				some := []string{}
				for _, k := range r.Perm(len(b.Pre))[:2+r.Intn(5)] {
					some = append(some, b.Pre[k])
				}
				for k := range b.Lab {
					b.Lab[k] = some[r.Intn(1+r.Intn(len(some)))]
				}
				preds = []vt.Col{b, vt.CatCol(r, "C:few", n, 3, pm)}[:1+r.Intn(2)]
			}
			tc := vt.MakeTarget(r, typ, n, preds, []float64{0, 0, 0.2}[r.Intn(3)])
			if merge {
				c := []float64{0.125, 0.5, 1, 4, 16}[r.Intn(5)]
				tc.Target = &mdl{tc.Feat.(CF.NumFeature), c}
				tc.T["type"], tc.T["par"] = "mdl", vt.M{"c": vt.Num(c)}
			}
			cols := tc.Tab.JSON()
			ev := []vt.M{}
			base := tc.FM.Data[0]
			allocs := CF.NewBestSplitAllocs(n, base)
			tree := CF.NewTree()
			before := vt.Snapshot(tc.FM)
			imp := CF.NewRunningMeans(len(tc.FM.Data))
			for rep := 0; rep < 3; rep++ {
				o := randOpts(r, tc, n)
				if o == nil {
					break
				}
				o.jungle = jungle
				if many {
					o.leaf, o.depth, o.extra = 2+r.Intn(3), 0, false
				}
				if merge {
					o.vet, o.evaloob = false, false
					o.missing = o.missing || r.Intn(2) == 0
					if r.Intn(2) == 0 {
						o.depth, o.leaf = 0, 1
					}
				}
				if rep == 2 && r.Intn(2) == 0 { // a tree of its own, on the same allocations
					tree = CF.NewTree()
				}
				seed := r.Int63()
				e := vt.M{"op": "grow", "cases": vt.One(o.cases), "cands": names(tc.FM, o.cands), "leaf": o.leaf, "depth": o.depth,
					"missing": o.missing, "full": o.full, "plain": !o.vet && !o.evaloob, "jungle": jungle,
					"opts": fmt.Sprintf("mtry=%d force=%v vet=%v evaloob=%v extra=%v", o.mtry, o.force, o.vet, o.evaloob, o.extra)}
				du := make([]int, len(tc.FM.Data))
				if p := vt.Catch(func() {
					allocs.Rnd = rand.New(rand.NewSource(seed))
					o.grow(tree, tc, imp, &du, allocs)
					e["nodes"] = vt.GrownJSON(tree.Root)
					fresh := CF.NewBestSplitAllocs(n, base)
					fresh.Rnd = rand.New(rand.NewSource(seed))
					t2 := CF.NewTree()
					o.grow(t2, tc, nil, nil, fresh)
					e["again"] = vt.GrownJSON(t2.Root)
				}); p != "" {
					e["op"] = "panic"
					e["msg"] = p
				}
				is := []vt.M{}
				for k, m := range *imp {
					mean, count := m.Read()
					is = append(is, vt.M{"f": tc.FM.Data[k].GetName(), "mean": vt.Num(mean), "count": int(count), "depth": du[k]})
				}
				e["imp"] = is
				e["same"] = vt.Snapshot(tc.FM) == before
				ev = append(ev, e)
			}
			if len(ev) > 0 {
				vt.Put(vt.M{"id": vt.ID(typ, i*100+ti), "target": tc.T, "cols": cols, "ev": ev})
			}
		}
	}
	vt.Done()
}
