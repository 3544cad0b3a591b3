// cands records which candidate features searches try.
package main

import (
	"fmt"
	"math/rand"
	"sort"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

type try struct {
	f        int
	cases    []int
	dec      float64
	constant bool
	code     string
	split    *CF.Splitter
	vet      *vetted
	name     string
}

// vetted is what the same feature finds for the shuffled copy of the target
type vetted struct {
	cases []int
	vals  []string
	dec   float64
	split *CF.Splitter
}

type log struct {
	tries  []try
	target CF.Target
}

// rec is a feature that tells what searches of it found, or what it is told to find
type rec struct {
	CF.Feature
	i      int
	name   string // of a feature that is searched for real
	log    *log
	script *try
}

func (f *rec) BestSplit(target CF.Target, cases *[]int, parentImp float64, leafSize int, randomSplit bool, allocs *CF.BestSplitAllocs) (code interface{}, dec float64, constant bool) {
	if f.script != nil {
		code, dec, constant = f.i+1, f.script.dec, f.script.constant
	} else {
		code, dec, constant = f.Feature.BestSplit(target, cases, parentImp, leafSize, randomSplit, allocs)
	}
	var split *CF.Splitter
	if f.script == nil && code != nil {
		split = f.Feature.DecodeSplit(code)
	}
	if target == f.log.target { // searches against the shuffled copy are no tries
		f.log.tries = append(f.log.tries, try{f.i, append([]int{}, *cases...), dec, constant, fmt.Sprint(code), split, nil, f.name})
	} else if k := len(f.log.tries) - 1; k >= 0 && f.log.tries[k].f == f.i {
		f.log.tries[k].vet = &vetted{append([]int{}, *cases...), values(target), dec, split}
	}
	return
}

// values of a numeric or categorical target
func values(t CF.Target) []string {
	r := []string{}
	if f, ok := t.(CF.NumFeature); ok {
		for i := 0; i < f.Length(); i++ {
			r = append(r, vt.Num(f.Get(i)))
		}
	} else if f, ok := t.(CF.CatFeature); ok {
		for i := 0; i < f.Length(); i++ {
			r = append(r, f.NumToCat(f.Geti(i)))
		}
	}
	return r
}

func splitJSON(s *CF.Splitter) []vt.M {
	if s == nil {
		return []vt.M{}
	}
	return []vt.M{vt.NodeJSON("*", "", s)}
}

// judged are tries with all that is needed to judge them again
func judged(ts []try) []vt.M {
	r := tries(ts)
	for i, t := range ts {
		r[i]["split"] = splitJSON(t.split)
		r[i]["vet"] = []vt.M{}
		if v := t.vet; v != nil {
			r[i]["vet"] = []vt.M{{"cases": vt.One(v.cases), "vals": v.vals, "dec": vt.Num(v.dec), "split": splitJSON(v.split)}}
		}
	}
	return r
}

func tries(ts []try) []vt.M {
	r := []vt.M{}
	for _, t := range ts {
		r = append(r, vt.M{"f": t.f, "dec": vt.Num(t.dec), "constant": t.constant, "code": t.code, "name": t.name})
	}
	return r
}

// nested searches over scripted features, as a tree does them
func scripted(r *rand.Rand, id string) {
	n := 1 + r.Intn(6)
	t := vt.MakeTarget(r, "gini", 6, nil, 0)
	l := &log{target: t.Target}
	fm := &CF.FeatureMatrix{Data: []CF.Feature{t.Feat}, Map: map[string]int{}}
	for i := 1; i <= n; i++ {
		fm.Data = append(fm.Data, &rec{Feature: t.Feat, i: i, log: l})
	}
	cans := r.Perm(n)
	for i := range cans {
		cans[i]++
	}
	allocs := CF.NewBestSplitAllocs(6, t.Feat)
	ev := []vt.M{}
	mtry := 1 + r.Intn(n+2)
	force := r.Intn(2) == 0
	pc := []float64{0.1, 0.4, 0.8}[r.Intn(3)]
	var walk func(depth, nc int, constant map[int]bool)
	walk = func(depth, nc int, constant map[int]bool) {
		mine := map[int]bool{}
		for i := 1; i <= n; i++ {
			mine[i] = constant[i] || r.Float64() < pc
			s := &try{constant: mine[i]}
			if !mine[i] {
				s.dec = []float64{0, 1e-7, 1e-8, 0.25, 0.25, 0.5, 2}[r.Intn(7)]
			}
			fm.Data[i].(*rec).script = s
		}
		cases := r.Perm(6)
		if r.Intn(8) == 0 {
			cases = cases[:1]
		}
		imp := t.Target.Impurity(&cases, allocs.Counter)
		before := vt.Ints(cans)
		l.tries = nil
		var fi, nc2 int
		var code interface{}
		var dec float64
		if p := vt.Catch(func() {
			fi, code, dec, nc2 = fm.BestSplitter(t.Target, &cases, &cans, mtry, nil, 1, force, false, false, false, allocs, nc)
		}); p != "" {
			ev = append(ev, vt.M{"op": "panic", "msg": p})
			cans = before
			return
		}
		ev = append(ev, vt.M{"op": "search", "mode": "plain", "before": before, "after": vt.Ints(cans), "nc": nc, "ncafter": nc2,
			"mtry": mtry, "force": force, "pure": imp <= 1e-7, "real": false, "tries": tries(l.tries), "found": code != nil, "fi": fi, "code": fmt.Sprint(code), "dec": vt.Num(dec)})
		if depth < 3 {
			for k := 0; k < 2; k++ {
				if r.Intn(4) > 0 {
					walk(depth+1, nc2, mine)
				}
			}
		}
	}
	walk(0, 0, map[int]bool{})
	vt.Put(vt.M{"id": id, "ev": ev})
}

func share(r *rand.Rand, id string) {
	n := 2 + r.Intn(5)
	nc := r.Intn(n - 1)
	t := vt.MakeTarget(r, "gini", 6, nil, 0)
	l := &log{target: t.Target}
	fm := &CF.FeatureMatrix{Data: []CF.Feature{t.Feat}, Map: map[string]int{}}
	cans := []int{}
	for i := 1; i <= n; i++ {
		fm.Data = append(fm.Data, &rec{Feature: t.Feat, i: i, log: l, script: &try{dec: 0.5}})
		cans = append(cans, i)
	}
	allocs := CF.NewBestSplitAllocs(6, t.Feat)
	mtry := 1 + r.Intn(n-nc)
	reps := 100 * n
	counts := make([]int, n+1)
	cases := r.Perm(6)
	if t.Target.Impurity(&cases, allocs.Counter) <= 1e-7 {
		return
	}
	if p := vt.Catch(func() {
		for k := 0; k < reps; k++ {
			l.tries = nil
			fm.BestSplitter(t.Target, &cases, &cans, mtry, nil, 1, false, false, false, false, allocs, nc)
			for _, x := range l.tries {
				counts[x.f]++
			}
		}
	}); p != "" {
		vt.Put(vt.M{"id": id, "ev": []vt.M{{"op": "panic", "msg": p}}})
		return
	}
	vt.Put(vt.M{"id": id, "ev": []vt.M{{"op": "fair", "counts": counts[1 : n-nc+1], "n": n, "mtry": mtry, "reps": reps}}})
}

func sorted(c []int) string {
	d := append([]int{}, c...)
	sort.Ints(d)
	return fmt.Sprint(d)
}

// real features: single searches in every mode, and the searches of a whole tree
func real(r *rand.Rand, typ, id string) {
	n := 4 + r.Intn(10)
	cols := vt.RandTable(r, n, r.Intn(3), 1+r.Intn(3), 4, []float64{0, 0, 0.3}[r.Intn(3)]).Cols
	if r.Intn(2) == 0 {
		b := vt.CatCol(r, "C:half", n, 2, 0)
		x := vt.NumCol(r, "N:left", n, 3, 0)
		y := vt.NumCol(r, "N:right", n, 3, 0)
		for k := range b.Lab {
			if b.Lab[k] == "c0" {
				x.Num[k] = 1
			} else {
				y.Num[k] = 1
			}
		}
		cols = append(cols, b, x, y)
	}
	t := vt.MakeTarget(r, typ, n, cols, 0)
	l := &log{target: t.Target}
	fm := &CF.FeatureMatrix{Data: append([]CF.Feature{}, t.FM.Data...), Map: t.FM.Map, CaseLabels: t.FM.CaseLabels}
	cans := []int{}
	for i := 1; i < len(fm.Data); i++ {
		fm.Data[i] = &rec{Feature: t.FM.Data[i], i: i, log: l, name: t.FM.Data[i].GetName()}
		cans = append(cans, i)
	}
	r.Shuffle(len(cans), func(a, b int) { cans[a], cans[b] = cans[b], cans[a] })
	all := vt.Ints(cans)
	allocs := CF.NewBestSplitAllocs(n, t.Feat)
	leaf := 1 + r.Intn(2)
	mtry := 1 + r.Intn(len(cans)+1)
	if r.Intn(3) == 0 {
		mtry = len(cans)
	}
	force := r.Intn(3) == 0
	extra := r.Intn(3) == 0
	ev := []vt.M{}
	// one search
	p := r.Perm(n)
	k := 2 + r.Intn(n-2)
	cases, oob := vt.Ints(p[:k]), vt.Ints(p[k:])
	if r.Intn(3) == 0 { // a sample with replacement
		for i := range cases {
			cases[i] = p[r.Intn(k)]
		}
	}
	mode := []string{"plain", "vet", "oob", "both"}[r.Intn(4)]
	imp := t.Target.Impurity(&cases, allocs.Counter)
	before := vt.Ints(cans)
	e := vt.M{"op": "search", "mode": mode, "before": before, "nc": 0, "mtry": mtry, "force": force, "pure": imp <= 1e-7 && imp >= 0,
		"real": true, "leaf": leaf, "cases": vt.One(cases), "oob": vt.One(oob)}
	if m := vt.Catch(func() {
		fi, code, dec, nc := fm.BestSplitter(t.Target, &cases, &cans, mtry, &oob, leaf, force, mode == "vet" || mode == "both", mode == "oob" || mode == "both", extra, allocs, 0)
		e["after"], e["ncafter"], e["tries"], e["found"], e["fi"], e["code"], e["dec"] = vt.Ints(cans), nc, judged(l.tries), code != nil, fi, fmt.Sprint(code), vt.Num(dec)
	}); m != "" {
		e = vt.M{"op": "panic", "msg": m}
		cans = before
	}
	ev = append(ev, e)
	// a tree
	l.tries = nil
	cases = r.Perm(n)
	if m := vt.Catch(func() {
		tree := CF.NewTree()
		tree.Grow(fm, t.Target, cases, cans, nil, mtry, leaf, 0, r.Intn(2) == 0, force, r.Intn(3) == 0, false, extra, nil, nil, allocs)
	}); m != "" {
		ev = append(ev, vt.M{"op": "panic", "msg": m})
	}
	for i := 0; i < len(l.tries); {
		j := i
		for j < len(l.tries) && sorted(l.tries[j].cases) == sorted(l.tries[i].cases) {
			j++
		}
		ev = append(ev, vt.M{"op": "visit", "cases": vt.One(l.tries[i].cases), "tries": tries(l.tries[i:j]), "mtry": mtry, "force": force, "leaf": leaf})
		i = j
	}
	vt.Put(vt.M{"id": id, "cands": all, "target": t.T, "cols": t.Tab.JSON(), "ev": ev})
}

func main() {
	r := vt.Start()
	for i := 0; i < vt.N(400, 6000); i++ {
		scripted(r, vt.ID("script", i))
	}
	for i := 0; i < vt.N(60, 300); i++ {
		share(r, vt.ID("share", i))
	}
	for i := 0; i < vt.N(120, 2000); i++ {
		for _, typ := range []string{"gini", "num", "entropy", "numada", "l1", "gradboost", "hdist", "regret"} {
			real(r, typ, vt.ID("real-"+typ, i))
		}
	}
	vt.Done()
}
