// table records histories of operations on features and a matrix of them.
package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"strconv"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

type hist struct {
	r    *rand.Rand
	objs []CF.Feature
	fm   *CF.FeatureMatrix
	ev   []vt.M
	dead bool
}

func see(f CF.Feature) vt.M {
	cells, cats, kind := [][]string{}, []string{}, "num"
	cf, cat := f.(CF.CatFeature)
	if cat {
		kind = "cat"
		for i := 0; i < cf.NCats(); i++ {
			cats = append(cats, cf.NumToCat(i))
		}
	}
	for i := 0; i < f.Length(); i++ {
		switch {
		case f.IsMissing(i):
			cells = append(cells, []string{})
		case cat:
			cells = append(cells, []string{cf.NumToCat(cf.Geti(i))})
		default:
			cells = append(cells, []string{vt.Num(f.(CF.NumFeature).Get(i))})
		}
	}
	// categories are found by label as they are by number
	agree := true
	if df, ok := f.(*CF.DenseCatFeature); ok {
		agree = len(df.Map) == len(df.Back)
		for k, b := range df.Back {
			x, ok := df.Map[b]
			agree = agree && ok && x == k
		}
	}
	return vt.M{"name": f.GetName(), "kind": kind, "cells": cells, "cats": cats, "has": f.MissingVals(), "agree": agree}
}

func (h *hist) snap() []vt.M {
	s := []vt.M{}
	for _, f := range h.objs {
		s = append(s, see(f))
	}
	return s
}

// which objects the matrix holds, its labels and lookup
func (h *hist) matrix() vt.M {
	order := []int{}
	for _, f := range h.fm.Data {
		k := 0
		for i, o := range h.objs {
			if o == f {
				k = i + 1
			}
		}
		order = append(order, k)
	}
	return vt.M{"order": order, "labels": append([]string{}, h.fm.CaseLabels...), "lookup": lookup(h.fm)}
}

func lookup(fm *CF.FeatureMatrix) [][]interface{} {
	ks := map[string]bool{}
	for k := range fm.Map {
		ks[k] = true
	}
	out := [][]interface{}{}
	for _, k := range vt.TrueKeys(ks) {
		out = append(out, []interface{}{k, fm.Map[k] + 1})
	}
	return out
}

func names(fm *CF.FeatureMatrix) []string {
	r := []string{}
	for _, f := range fm.Data {
		r = append(r, f.GetName())
	}
	return r
}

// do performs an operation; the objects it makes are taken over
func (h *hist) do(e vt.M, f func() []CF.Feature) {
	if h.dead {
		return
	}
	p := vt.Catch(func() {
		h.objs = append(h.objs, f()...)
		e["snap"] = h.snap()
		e["matrix"] = h.matrix()
	})
	if p != "" {
		h.ev = append(h.ev, vt.M{"op": "panic", "of": e["op"], "msg": p})
		h.dead = true
		return
	}
	h.ev = append(h.ev, e)
}

var catTexts = []string{"a", "b", "c 1", "true", "false", "0", "A", "N/A", "none", "-", "naa", " ", "é"}
var numTexts = []string{"0", "1", "-2.5", "1e3", "3.0000000001", "-0", "1e-320", "17", "0.1", "+4", ".5", "123456789.25"}
var missTexts = []string{"", "?", "NA", "na", "Na", "nA", "NaN", "nan", "NAN", "Nan", "null", "NULL", "Null"}
var noNumTexts = []string{"x", "1,5", " 1", "1 ", "--1", "1e999", "0x", "true", "N:1"}

func (h *hist) text(f CF.Feature) (string, []string) {
	_, cat := f.(CF.CatFeature)
	r := h.r
	x := r.Intn(10)
	s := ""
	switch {
	case x < 2:
		s = missTexts[r.Intn(len(missTexts))]
	case cat:
		s = catTexts[r.Intn(2+r.Intn(len(catTexts)-1))]
	case x < 3:
		s = noNumTexts[r.Intn(len(noNumTexts))]
	default:
		s = numTexts[r.Intn(len(numTexts))]
	}
	want := []string{}
	if v, err := strconv.ParseFloat(s, 64); err == nil && v == v {
		want = append(want, vt.Num(v))
	}
	return s, want
}

func subset(r *rand.Rand, n int, dups bool) []int {
	p := r.Perm(n)[:r.Intn(n+1)]
	if dups && len(p) > 0 && r.Intn(2) == 0 {
		p = append(p, p[r.Intn(len(p))])
	}
	return p
}

func (h *hist) inMatrix(o int) bool {
	for _, f := range h.fm.Data {
		if f == h.objs[o] {
			return true
		}
	}
	return false
}

// every object equal length to the matrix
func (h *hist) ids() []int {
	r := []int{}
	m := h.matrix()["order"].([]int)
	for _, k := range m {
		r = append(r, k)
	}
	return r
}

func (h *hist) mutate() {
	r := h.r
	o := r.Intn(len(h.objs))
	f := h.objs[o]
	n := f.Length()
	i := 0
	if n > 0 {
		i = r.Intn(n)
	}
	switch r.Intn(11) {
	case 0, 1, 2:
		if n == 0 {
			return
		}
		s, want := h.text(f)
		h.do(vt.M{"op": "putstr", "o": o + 1, "i": i + 1, "v": s, "want": want}, func() []CF.Feature { f.PutStr(i, s); return nil })
	case 3:
		if n == 0 {
			return
		}
		h.do(vt.M{"op": "putmissing", "o": o + 1, "i": i + 1}, func() []CF.Feature { f.PutMissing(i); return nil })
	case 4:
		if h.inMatrix(o) || n > 12 {
			return
		}
		s, want := h.text(f)
		h.do(vt.M{"op": "append", "o": o + 1, "v": s, "want": want}, func() []CF.Feature { f.Append(s); return nil })
	case 5:
		if n == 0 {
			return
		}
		if cf, ok := f.(CF.CatFeature); ok {
			if cf.NCats() > 0 {
				k := r.Intn(cf.NCats())
				h.do(vt.M{"op": "put", "o": o + 1, "i": i + 1, "v": cf.NumToCat(k)}, func() []CF.Feature { cf.Puti(i, k); return nil })
			}
		} else {
			v := r.NormFloat64()
			h.do(vt.M{"op": "put", "o": o + 1, "i": i + 1, "v": vt.Num(v)}, func() []CF.Feature { f.(CF.NumFeature).Put(i, v); return nil })
		}
	case 6:
		h.do(vt.M{"op": "impute", "o": o + 1}, func() []CF.Feature { f.ImputeMissing(); return nil })
	case 7:
		if r.Intn(3) == 0 {
			h.do(vt.M{"op": "imputeall", "os": h.ids()}, func() []CF.Feature { h.fm.ImputeMissing(); return nil })
		}
	case 8:
		h.do(vt.M{"op": "shuffle", "o": o + 1}, func() []CF.Feature { f.Shuffle(); return nil })
	case 9:
		if n == 0 {
			return
		}
		cs := subset(r, n, true)
		a := CF.NewBestSplitAllocs(n, f)
		h.do(vt.M{"op": "shufflecases", "o": o + 1, "cases": vt.One(cs)}, func() []CF.Feature { f.ShuffleCases(&cs, a); return nil })
	case 10:
		for p, g := range h.objs {
			if p != o && g.Length() == n && prefix(f, g) && r.Intn(2) == 0 {
				h.do(vt.M{"op": "copyinto", "o": o + 1, "p": p + 1}, func() []CF.Feature { f.CopyInTo(g); return nil })
				break
			}
		}
	}
}

// f's labels are g's first ones: codes mean the same
func prefix(f, g CF.Feature) bool {
	a, x := f.(CF.CatFeature)
	b, y := g.(CF.CatFeature)
	if x != y {
		return false
	}
	if x {
		for i := 0; i < a.NCats(); i++ {
			if i >= b.NCats() || a.NumToCat(i) != b.NumToCat(i) {
				return false
			}
		}
	}
	return true
}

func (h *hist) create() {
	r := h.r
	if len(h.objs) > 9 {
		return
	}
	o := r.Intn(len(h.objs))
	f := h.objs[o]
	cf, cat := f.(CF.CatFeature)
	switch x := r.Intn(8); {
	case x < 3:
		h.do(vt.M{"op": "copy", "o": o + 1}, func() []CF.Feature { return []CF.Feature{f.Copy()} })
	case x < 4:
		h.do(vt.M{"op": "shuffledcopy", "o": o + 1}, func() []CF.Feature { return []CF.Feature{f.ShuffledCopy()} })
	case x < 5 && len(h.fm.Data) < 4:
		n := r.Intn(3)
		k := len(h.fm.Data)
		h.contrasts(vt.M{"op": "addcontrasts", "n": n, "os": h.ids()}, func() []CF.Feature { h.fm.AddContrasts(n); return h.fm.Data[k:] })
	case x < 6 && len(h.fm.Data) < 4:
		k := len(h.fm.Data)
		h.contrasts(vt.M{"op": "contrastall", "os": h.ids()}, func() []CF.Feature { h.fm.ContrastAll(); return h.fm.Data[k:] })
	case x < 7 && cat && cf.NCats() < 6:
		h.do(vt.M{"op": "encode", "o": o + 1}, func() []CF.Feature { return cf.EncodeToNum() })
	case cat && cf.NCats() < 6:
		h.do(vt.M{"op": "onehot", "o": o + 1}, func() []CF.Feature { return cf.OneHot() })
	}
}

func (h *hist) contrasts(e vt.M, f func() []CF.Feature) {
	h.do(e, f)
	if !h.dead {
		e["names"] = names(h.fm)
	}
}

func (h *hist) ask() {
	r := h.r
	o := r.Intn(len(h.objs))
	f := h.objs[o]
	n := f.Length()
	if r.Intn(2) == 0 {
		s, num := []string{}, []string{}
		for i := 0; i < n; i++ {
			t := f.GetStr(i)
			s = append(s, t)
			num = append(num, vt.NumStr(t))
		}
		h.ev = append(h.ev, vt.M{"op": "strings", "o": o + 1, "s": s, "num": num})
		return
	}
	cs := subset(r, n, true)
	known := false
	for _, c := range cs {
		known = known || !f.IsMissing(c)
	}
	if !known {
		return
	}
	v := ""
	if p := vt.Catch(func() {
		if nf, ok := f.(CF.NumFeature); ok {
			v = vt.Num(nf.Mean(&cs))
		} else {
			v = f.(CF.CatFeature).Mode(&cs)
		}
	}); p != "" {
		h.ev = append(h.ev, vt.M{"op": "panic", "of": "center", "msg": p})
		h.dead = true
		return
	}
	h.ev = append(h.ev, vt.M{"op": "center", "o": o + 1, "cases": vt.One(cs), "v": v})
}

// operations that should change nothing
func (h *hist) read() {
	r := h.r
	n := h.fm.Data[0].Length()
	cs := subset(r, n, false)
	switch r.Intn(8) {
	case 0:
		h.do(vt.M{"op": "write"}, func() []CF.Feature { h.fm.WriteCases(&bytes.Buffer{}, cs); return nil })
	case 1:
		h.do(vt.M{"op": "arff"}, func() []CF.Feature { CF.WriteArffCases(h.fm, cs, "rel", &bytes.Buffer{}); return nil })
	case 2:
		t := h.fm.Data[r.Intn(len(h.fm.Data))].GetName()
		if r.Intn(2) == 0 {
			h.do(vt.M{"op": "svm"}, func() []CF.Feature { CF.WriteLibSvm(h.fm, t, &bytes.Buffer{}); return nil })
		} else {
			h.do(vt.M{"op": "svmcases"}, func() []CF.Feature { CF.WriteLibSvmCases(h.fm, cs, t, &bytes.Buffer{}); return nil })
		}
	case 3:
		e := vt.M{"op": "encoded"}
		var fm *CF.FeatureMatrix
		kind := "num"
		h.do(e, func() []CF.Feature {
			if r.Intn(2) == 0 {
				fm = h.fm.EncodeToNum()
			} else {
				kind = "cat"
				fm = h.fm.OneHot()
			}
			return nil
		})
		if !h.dead {
			cols := []vt.M{}
			for _, f := range fm.Data {
				cols = append(cols, see(f))
			}
			h.ev = append(h.ev, vt.M{"op": "matrix", "kind": kind, "os": h.ids(), "cols": cols, "lookup": lookup(fm), "labels": fm.CaseLabels})
		}
	default:
		h.learn()
	}
}

// wrap makes a target of a feature
func (h *hist) wrap(f CF.Feature) (CF.Target, string) {
	r := h.r
	if nf, ok := f.(CF.NumFeature); ok {
		switch r.Intn(5) {
		case 0:
			return &CF.L1Target{NumFeature: nf}, "l1"
		case 1:
			return CF.NewNumAdaBoostTarget(nf), "numada"
		case 2:
			return CF.NewGradBoostTarget(nf, 0.25), "gradboost"
		case 3:
			ok := true
			for i := 0; i < nf.Length(); i++ {
				v := nf.Get(i)
				ok = ok && (nf.IsMissing(i) || v == float64(int(v)) && v >= 0 && v < 100)
			}
			if ok {
				return CF.NewOrdinalTarget(nf), "ordinal"
			}
		}
		return nf.(CF.Target), "num"
	}
	cf := f.(CF.CatFeature)
	if cf.NCats() == 0 {
		return nil, ""
	}
	costs := map[string]float64{}
	for i := 0; i < cf.NCats(); i++ {
		costs[cf.NumToCat(i)] = float64(1+r.Intn(9)) / 2
	}
	pos := cf.NumToCat(r.Intn(cf.NCats()))
	switch r.Intn(11) {
	case 0:
		return CF.NewEntropyTarget(cf), "entropy"
	case 1:
		t := CF.NewDEntropyTarget(cf)
		t.SetCosts(costs)
		return t, "dentropy"
	case 2:
		return CF.NewWRFTarget(cf, costs), "wrf"
	case 3:
		t := CF.NewRegretTarget(cf)
		t.SetCosts(costs)
		return t, "regret"
	case 4:
		return CF.NewNPTarget(cf, pos, 0.1, 2), "np"
	case 5:
		return CF.NewAdaBoostTarget(cf), "ada"
	case 6:
		t := CF.NewAdaCostTarget(cf)
		t.SetCosts(costs)
		return t, "adacost"
	case 7:
		return CF.NewTransTarget(cf, &h.fm.Data, pos, 1, 0.5, cf.Length()), "trans"
	case 8:
		if cf.NCats() == 2 {
			return CF.NewHDistanceTarget(cf, pos), "hdist"
		}
	case 9:
		// both classes are needed for the log odds
		yes, no := false, false
		for i := 0; i < cf.Length(); i++ {
			if !cf.IsMissing(i) {
				if cf.GetStr(i) == pos {
					yes = true
				} else {
					no = true
				}
			}
		}
		if yes && no {
			return CF.NewGradBoostClassTarget(cf, 0.25, pos), "gradboostclass"
		}
	}
	return cf.(CF.Target), "gini"
}

func (h *hist) learn() {
	r := h.r
	k := r.Intn(len(h.fm.Data))
	f := h.fm.Data[k]
	cases := []int{}
	for i := 0; i < f.Length(); i++ {
		if !f.IsMissing(i) {
			cases = append(cases, i)
		}
	}
	if len(cases) < 2 || len(h.fm.Data) < 2 {
		return
	}
	t, name := h.wrap(f)
	if t == nil {
		return
	}
	cands := []int{}
	for i := range h.fm.Data {
		if i != k {
			cands = append(cands, i)
		}
	}
	h.do(vt.M{"op": "wrap " + name}, func() []CF.Feature { return nil })
	h.do(vt.M{"op": "learn " + name}, func() []CF.Feature {
		n := f.Length()
		a := CF.NewBestSplitAllocs(n, t)
		cs := append([]int{}, cases...)
		imp := t.Impurity(&cs, a.Counter)
		g := h.fm.Data[cands[0]]
		g.BestSplit(t, &cs, imp, 1, false, a)
		l, rr, m := cs[:1], cs[1:], []int{}
		t.SplitImpurity(&l, &rr, &m, a)
		t.FindPredicted(cs)
		imps := CF.NewRunningMeans(len(h.fm.Data))
		tree := CF.NewTree()
		if r.Intn(3) > 0 {
			bag := []int{}
			oob := []int{}
			for _, c := range cases {
				if r.Intn(3) > 0 {
					bag = append(bag, c)
				} else {
					oob = append(oob, c)
				}
			}
			if len(bag) == 0 {
				bag = cases
			}
			vet := r.Intn(2) == 0 && name != "gradboost" && name != "gradboostclass"
			tree.Grow(h.fm, t, bag, cands, oob, len(cands), 1, 0, r.Intn(2) == 0, r.Intn(2) == 0, vet && len(oob) > 1, r.Intn(3) == 0 && len(oob) > 0 && vet, false, imps, nil, a)
		} else if r.Intn(3) == 0 {
			CF.GrowRandomForest(h.fm, t.(CF.Feature), cands, len(cases), 1+r.Intn(len(cands)), 3, 1, 0, false, false, false, false, imps)
			return nil
		} else {
			tree.GrowJungle(h.fm, t, append([]int{}, cases...), cands, nil, len(cands), 1, 0, r.Intn(2) == 0, false, false, false, false, imps, nil, a)
		}
		leaves := [][]int{}
		preds := []string{}
		for _, lf := range tree.GetLeaves(h.fm, nil) {
			leaves = append(leaves, lf.Cases)
			preds = append(preds, lf.Pred)
		}
		tree.Partition(h.fm)
		if b, ok := t.(CF.BoostingTarget); ok {
			b.Boost(&leaves, &preds)
		}
		var box CF.VoteTallyer = CF.NewNumBallotBox(n)
		if _, ok := f.(CF.CatFeature); ok && name != "gradboostclass" {
			box = CF.NewCatBallotBox(n)
		} else if r.Intn(2) == 0 {
			box = CF.NewSumBallotBox(n)
		}
		tree.Vote(h.fm, box)
		tree.VoteCases(h.fm, box, cases)
		for i := 0; i < n; i++ {
			box.Tally(i)
		}
		if name != "gradboostclass" {
			box.TallyError(f)
		}
		return nil
	})
}

func history(r *rand.Rand, i int) {
	n := 2 + r.Intn(6)
	if r.Intn(12) == 0 {
		n = 1
	}
	h := &hist{r: r}
	h.fm = &CF.FeatureMatrix{Map: map[string]int{}}
	k := 1 + r.Intn(3)
	for j := 0; j < k; j++ {
		c := vt.NumCol(r, fmt.Sprintf("N:x%d", j), n, 1+r.Intn(n+1), []float64{0, .2, .6}[r.Intn(3)])
		if r.Intn(3) > 0 {
			c = vt.CatCol(r, fmt.Sprintf("C:k%d", j), n, 1+r.Intn(5), []float64{0, .2, .6, 1}[r.Intn(4)])
			if r.Intn(2) == 0 {
				for x := range c.Lab {
					c.Lab[x] = catTexts[r.Intn(4)]
				}
				c.Pre = nil
			}
		}
		h.fm.Map[c.Name] = j
		h.fm.Data = append(h.fm.Data, c.Feature())
	}
	for j := 0; j < n; j++ {
		h.fm.CaseLabels = append(h.fm.CaseLabels, fmt.Sprintf("s%d", j))
	}
	h.objs = append(h.objs, h.fm.Data...)
	t := vt.M{"id": vt.ID("history", i), "init": h.snap(), "matrix0": h.matrix(), "labels": append([]string{}, h.fm.CaseLabels...)}
	steps := 8 + r.Intn(18)
	for s := 0; s < steps && !h.dead; s++ {
		switch x := r.Intn(20); {
		case x < 8:
			h.mutate()
		case x < 13:
			h.create()
		case x < 15:
			h.ask()
		default:
			h.read()
		}
	}
	t["ev"] = h.ev
	vt.Put(t)
}

// shuffles again and again: where does every value turn up?
func stir(r *rand.Rand, i int) {
	n := 2 + r.Intn(4)
	ev := []vt.M{}
	for kind := 0; kind < 2; kind++ {
		for way := 0; way < 3; way++ {
			var f CF.Feature = &CF.DenseNumFeature{Name: "N:x"}
			if kind == 1 {
				f = &CF.DenseCatFeature{CatMap: &CF.CatMap{Map: map[string]int{}, Back: []string{}}, Name: "C:x"}
			}
			for k := 1; k <= n; k++ {
				f.Append(fmt.Sprint(k))
			}
			cs := []int{}
			for k := 0; k < n; k++ {
				cs = append(cs, k)
			}
			a := CF.NewBestSplitAllocs(n, f)
			orders := [][]int{}
			p := vt.Catch(func() {
				for k := 0; k < 160; k++ {
					g := f.Copy()
					switch way {
					case 0:
						g.Shuffle()
					case 1:
						g.ShuffleCases(&cs, a)
					default:
						g = f.ShuffledCopy()
					}
					o := []int{}
					for j := 0; j < n; j++ {
						v, _ := strconv.Atoi(g.GetStr(j))
						o = append(o, v)
					}
					orders = append(orders, o)
				}
			})
			if p != "" {
				ev = append(ev, vt.M{"op": "panic", "of": "stirred", "msg": p})
			} else {
				ev = append(ev, vt.M{"op": "stirred", "n": n, "orders": orders})
			}
		}
	}
	vt.Put(vt.M{"id": vt.ID("stir", i), "init": []vt.M{}, "matrix0": vt.M{}, "labels": []string{}, "ev": ev})
}

func main() {
	r := vt.Start()
	log.SetOutput(ioutil.Discard)
	for i := 0; i < vt.N(500, 6000); i++ {
		history(r, i)
	}
	for i := 0; i < vt.N(4, 20); i++ {
		stir(r, i)
	}
	vt.Done()
}
