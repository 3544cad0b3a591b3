// boosts records rounds of boosting: trees handed to a boosting target directly, and forests grown with one.
package main

import (
	"math"
	"math/rand"
	"strconv"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

var types = []string{"ada", "adacost", "numada", "grad", "gradclass"}

type episode struct {
	typ   string
	col   vt.Col
	tab   *vt.Table
	fm    *CF.FeatureMatrix
	feat  CF.Feature
	t     CF.Target
	data  vt.M
	slack float64
	labs  []string
}

func known(c *vt.Col) (k []int) {
	for i, m := range c.Miss {
		if !m {
			k = append(k, i)
		}
	}
	return
}

func make1(r *rand.Rand, typ string) *episode {
	e := &episode{typ: typ}
	n := 3 + r.Intn(9)
	pm := []float64{0, 0, 0.2, 0.5}[r.Intn(4)]
	cost := make([]string, n)
	for i := range cost {
		cost[i] = "1"
	}
	lr := []float64{0.1, 0.5, 1, 0.03, 1.7}[r.Intn(5)]
	pos := ""
	cat := typ == "ada" || typ == "adacost" || typ == "gradclass"
	max := 1.0
	if cat {
		k := 2 + r.Intn(3)
		e.col = vt.CatCol(r, "C:t", n, k, pm)
		e.labs = vt.Labels(k)
		if r.Intn(2) == 0 {
			e.col.Pre = append([]string{"nobody"}, e.labs...)
		}
		e.col.Miss[0], e.col.Miss[1] = false, false
		e.col.Lab[0], e.col.Lab[1] = "c0", "c1"
		pos = []string{"c0", "c1"}[r.Intn(2)]
		for i := range e.col.Lab { // one label dominates
			if i > 1 && r.Intn(3) == 0 {
				e.col.Lab[i] = "c0"
			}
		}
	} else {
		e.col = vt.NumCol(r, "N:t", n, 1+r.Intn(n), pm)
		e.col.Miss[0] = false
		if r.Intn(3) == 0 {
			f := []float64{1000, 1e-3, 1e5}[r.Intn(3)]
			for i := range e.col.Num {
				e.col.Num[i] *= f
			}
		}
		for _, v := range e.col.Num {
			max = math.Max(max, math.Abs(v))
		}
	}
	e.tab = vt.RandTable(r, n, 1+r.Intn(3), r.Intn(3), 4, []float64{0, 0, 0.2}[r.Intn(3)])
	e.tab.Cols = append([]vt.Col{e.col}, e.tab.Cols...)
	e.fm = e.tab.FM()
	e.feat = e.fm.Data[0]
	e.slack = 1e-9 * max
	switch typ {
	case "ada":
		e.t = CF.NewAdaBoostTarget(e.feat.(CF.CatFeature))
	case "adacost":
		t := CF.NewAdaCostTarget(e.feat.(CF.CatFeature))
		m := map[string]float64{}
		free := r.Intn(6) == 0 // nothing costs anything
		for _, l := range e.labs {
			if free {
				m[l] = 0
				continue
			}
			m[l] = []float64{1, 1, 0.5, 2, 3.25, 0}[r.Intn(6)]
		}
		t.SetCosts(m)
		for i := range cost {
			if !e.col.Miss[i] {
				cost[i] = vt.Num(m[e.col.Lab[i]])
			}
		}
		e.t = t
	case "numada":
		e.t = CF.NewNumAdaBoostTarget(e.feat.(CF.NumFeature))
		e.slack = 1e-11
	case "grad":
		if r.Intn(4) == 0 {
			e.t = CF.NewGradBoostTarget(&CF.L1Target{NumFeature: e.feat.(CF.NumFeature)}, lr)
		} else {
			e.t = CF.NewGradBoostTarget(e.feat.(CF.NumFeature), lr)
		}
	case "gradclass":
		e.t = CF.NewGradBoostClassTarget(e.feat.(CF.CatFeature), lr, pos)
	}
	j := e.col.JSON()
	e.data = vt.M{"type": typ, "n": n, "val": j["val"], "miss": j["miss"], "cost": cost, "lr": vt.Num(lr), "pos": pos}
	return e
}

// what the target holds now
func (e *episode) state() []string {
	s := make([]float64, len(e.col.Miss))
	switch t := e.t.(type) {
	case *CF.AdaBoostTarget:
		copy(s, t.Weights)
	case *CF.AdaCostTarget:
		copy(s, t.Weights)
	case *CF.NumAdaBoostTarget:
		copy(s, t.Weights)
	case *CF.GradBoostTarget:
		for _, i := range known(&e.col) {
			s[i] = t.Get(i)
			if t.IsMissing(i) {
				s[i] = math.NaN()
			}
		}
	case *CF.GradBoostClassTarget:
		for _, i := range known(&e.col) {
			s[i] = t.Get(i)
			if t.IsMissing(i) {
				s[i] = math.NaN()
			}
		}
	}
	return vt.Nums(s)
}

func (e *episode) missing() bool {
	f := e.t.(CF.Feature)
	for i, m := range e.col.Miss {
		if f.IsMissing(i) != m {
			return false
		}
	}
	return true
}

func (e *episode) start() vt.M {
	m := vt.M{"op": "start", "state": e.state(), "num": "0"}
	if t, ok := e.t.(CF.TargetWithIntercept); ok {
		m["num"] = vt.Num(t.Intercept())
	}
	return m
}

// a tree: leaves with the cases that reach them, and what they predict
func (e *episode) tree(r *rand.Rand) (leaves [][]int, preds []string, exact []string) {
	n := len(e.col.Miss)
	k := 1 + r.Intn(4)
	leaves = make([][]int, k)
	unreached := []float64{0, 0, 0.25, 1}[r.Intn(4)]
	style := r.Intn(6)
	if e.typ == "ada" || e.typ == "adacost" {
		if style == 0 { // perfect
			k = len(e.labs)
			leaves = make([][]int, k)
		}
	}
	for _, c := range r.Perm(n) {
		if r.Float64() < unreached {
			continue
		}
		i := r.Intn(k)
		if k == len(e.labs) && style == 0 {
			for j, l := range e.labs {
				if l == e.col.Lab[c] {
					i = j
				}
			}
		}
		leaves[i] = append(leaves[i], c)
	}
	if r.Intn(12) == 0 {
		leaves = leaves[:0]
	}
	for i, l := range leaves {
		p := ""
		switch e.typ {
		case "ada", "adacost":
			p = e.labs[r.Intn(len(e.labs))]
			if style == 0 {
				p = e.labs[i]
			} else if style < 4 && len(l) > 0 { // somewhat right
				p = e.feat.(CF.CatFeature).FindPredicted(append([]int{}, l...))
			}
			if p == "" {
				p = "c0"
			}
			exact = append(exact, p)
		default:
			x := r.NormFloat64() * e.slack * 1e9
			if e.typ == "numada" {
				x = r.NormFloat64()
			}
			if e.typ == "gradclass" {
				x *= 2
			}
			if style < 4 && len(l) > 0 && e.typ != "gradclass" {
				s, m := 0.0, 0
				for _, c := range l {
					if !e.col.Miss[c] {
						s += e.feat.(CF.NumFeature).Get(c)
						m++
					}
				}
				if m > 0 {
					x = s / float64(m)
				}
			}
			p = strconv.FormatFloat(x, 'g', -1, 64)
			exact = append(exact, vt.Num(x))
		}
		preds = append(preds, p)
	}
	return
}

func direct(r *rand.Rand, typ, id string) {
	e := make1(r, typ)
	before := vt.Snapshot(e.fm)
	ev := []vt.M{}
	msg := vt.Catch(func() {
		ev = append(ev, e.start())
		for k := 1 + r.Intn(6); k > 0; k-- {
			leaves, preds, exact := e.tree(r)
			rec := [][]int{}
			for _, l := range leaves {
				rec = append(rec, vt.One(l))
			}
			w := e.t.(CF.BoostingTarget).Boost(&leaves, &preds)
			if exact == nil {
				exact = []string{}
			}
			ev = append(ev, vt.M{"op": "round", "leaves": rec, "preds": exact, "weight": vt.Num(w), "state": e.state()})
		}
	})
	if msg != "" {
		ev = append(ev, vt.M{"op": "panic", "msg": msg})
	}
	ev = append(ev, vt.M{"op": "after", "same": vt.Snapshot(e.fm) == before && e.missing()})
	vt.Put(vt.M{"id": id, "data": e.data, "slack": vt.Num(e.slack), "cols": []vt.M{}, "labels": []string{}, "bag": "none", "want": 0, "ev": ev})
}

func forest(r *rand.Rand, typ, id string) {
	e := make1(r, typ)
	before := vt.Snapshot(e.fm)
	ev := []vt.M{}
	want := 1 + r.Intn(6)
	msg := vt.Catch(func() {
		cand := []int{}
		for i := range e.fm.Data[1:] {
			cand = append(cand, i+1)
		}
		ev = append(ev, e.start())
		f := CF.GrowRandomForest(e.fm, e.t, cand, 1+r.Intn(len(e.col.Miss)+2), 1+r.Intn(len(cand)), want, 1+r.Intn(3), r.Intn(4), r.Intn(2) == 0, r.Intn(3) == 0, false, false, nil)
		if e.typ == "grad" || e.typ == "gradclass" {
			ev = append(ev, vt.M{"op": "header", "num": vt.Num(f.Intercept)})
		}
		for i, t := range f.Trees {
			nodes := vt.TreeJSON(t.Root)
			for _, n := range nodes {
				if p, ok := n["pred"].(string); ok && typ != "ada" && typ != "adacost" {
					n["pred"] = vt.NumStr(p)
				}
			}
			ev = append(ev, vt.M{"op": "tree", "no": i, "nodes": nodes, "weight": vt.Num(t.Weight)})
		}
		ev = append(ev, vt.M{"op": "end"})
	})
	if msg != "" {
		ev = append(ev, vt.M{"op": "panic", "msg": msg})
	}
	ev = append(ev, vt.M{"op": "after", "same": vt.Snapshot(e.fm) == before && e.missing()})
	vt.Put(vt.M{"id": id, "data": e.data, "slack": vt.Num(e.slack), "cols": e.tab.JSON(), "labels": []string{}, "bag": "none", "want": want, "ev": ev})
}

func main() {
	r := vt.Start()
	for _, typ := range types {
		for i := 0; i < vt.N(80, 1200); i++ {
			direct(r, typ, vt.ID("rounds-"+typ, i))
		}
		for i := 0; i < vt.N(40, 500); i++ {
			forest(r, typ, vt.ID("forest-"+typ, i))
		}
	}
	vt.Done()
}
