// ballots records sequences of calls on ballot boxes and running means.
package main

import (
	"fmt"
	"math"
	"math/rand"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

func truth(r *rand.Rand, kind string, n int) (vt.Col, CF.Feature) {
	var c vt.Col
	if kind == "cat" {
		c = vt.CatCol(r, "C:t", n, 1+r.Intn(4), 0.25)
		if r.Intn(2) == 0 { // a class nobody has
			c.Pre = append([]string{"unused"}, vt.Labels(4)...)
		}
	} else {
		c = vt.NumCol(r, "N:t", n, n, 0.25)
	}
	return c, c.Feature()
}

type box interface {
	CF.VoteTallyer
}

func main() {
	r := vt.Start()
	weights := []float64{1, 1, 1, 0.5, 0.25, 2, 3, 0, 1.7, 0.1, 1e-9, 1e6}
	for i := 0; i < vt.N(500, 5000); i++ {
		kind := []string{"cat", "num", "sum"}[i%3]
		n := 1 + r.Intn(5)
		col, feat := truth(r, kind, n)
		var b box
		switch kind {
		case "cat":
			b = CF.NewCatBallotBox(n)
		case "num":
			b = CF.NewNumBallotBox(n)
		default:
			b = CF.NewSumBallotBox(n)
		}
		ev := []vt.M{}
		m := r.Intn(24)
		onlyW1 := r.Intn(3) == 0
		do := func(e vt.M, f func()) {
			if p := vt.Catch(f); p != "" {
				e = vt.M{"op": "panic", "msg": p}
			}
			ev = append(ev, e)
		}
		voted := map[int]bool{}
		tallies := func() {
			for c := 0; c < n; c++ {
				e := vt.M{"op": "tally", "c": c + 1}
				do(e, func() { e["got"] = b.Tally(c) })
				if tn, ok := b.(interface{ TallyNum(int) float64 }); ok {
					e := vt.M{"op": "tallynum", "c": c + 1}
					do(e, func() { e["got"] = vt.Num(tn.TallyNum(c)) })
				}
			}
			scored := false
			for c := range voted {
				if !col.Miss[c] {
					scored = true
				}
			}
			if kind == "cat" || (kind == "num" && scored) {
				e := vt.M{"op": "error"}
				do(e, func() { e["got"] = vt.Num(b.TallyError(feat)) })
			}
			if nb, ok := b.(*CF.NumBallotBox); ok && scored {
				e := vt.M{"op": "sqerr"}
				do(e, func() { e["got"] = vt.Num(nb.TallySquaredError(feat)) })
				e = vt.M{"op": "r2"}
				do(e, func() { e["got"] = vt.Num(nb.TallyR2Score(feat)) })
			}
		}
		for k := 0; k < m; k++ {
			c := r.Intn(n)
			w := weights[r.Intn(len(weights))]
			if onlyW1 {
				w = 1
			}
			var p string
			if kind == "cat" {
				p = vt.Labels(4)[r.Intn(4)]
			} else {
				v := []float64{0, 1, -1, 2.5, -3.25, 1e6, math.Round(r.NormFloat64() * 100), r.NormFloat64()}[r.Intn(8)]
				p = fmt.Sprintf("%v", v)
				if r.Intn(15) == 0 {
					p = []string{"", "NA", "x1", "NaN"}[r.Intn(4)]
				}
			}
			if kind == "sum" && p == "NaN" {
				p = ""
			}
			// the specification reads numbers, not text: write the exact value voted
			ps := p
			if kind != "cat" {
				if v := CF.ParseFloat(p); p != "" && p != "NA" && p != "x1" && p != "NaN" {
					ps = vt.Num(v)
					if w > 0 {
						voted[c] = true
					}
				}
			}
			do(vt.M{"op": "vote", "c": c + 1, "pred": ps, "w": vt.Num(w)}, func() { b.Vote(c, p, w) })
			if r.Intn(4) == 0 {
				tallies()
			}
		}
		tallies()
		tallies()
		vt.Put(vt.M{"id": vt.ID(kind, i), "kind": kind, "n": n, "truth": col.JSON(), "ev": ev})
	}
	// running means
	for i := 0; i < vt.N(100, 1000); i++ {
		rms := *CF.NewRunningMeans(1 + r.Intn(3))
		rm := rms[r.Intn(len(rms))]
		ev := []vt.M{}
		for k := r.Intn(30); k >= 0; k-- {
			v := r.NormFloat64() * 10
			w := weights[r.Intn(len(weights))]
			if r.Intn(2) == 0 {
				w = 1
				rm.Add(v)
			} else {
				if r.Intn(12) == 0 {
					rm.WeightedAdd(math.NaN(), 1) // not a value: ignored
				}
				rm.WeightedAdd(v, w)
			}
			ev = append(ev, vt.M{"op": "vote", "c": 1, "pred": vt.Num(v), "w": vt.Num(w)})
			if r.Intn(3) == 0 || k == 0 {
				m, c := rm.Read()
				ev = append(ev, vt.M{"op": "read", "mean": vt.Num(m), "count": vt.Num(c)})
			}
		}
		vt.Put(vt.M{"id": vt.ID("mean", i), "kind": "num", "n": 1, "truth": vt.M{}, "ev": ev})
	}
	vt.Done()
}
