// samples records what the samplers draw.
package main

import (
	"math/rand"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

func put(id string, f func() []vt.M) {
	var ev []vt.M
	if p := vt.Catch(func() { ev = f() }); p != "" {
		ev = append(ev, vt.M{"op": "panic", "msg": p})
	}
	vt.Put(vt.M{"id": id, "ev": ev})
}

func classes(r *rand.Rand, n, k int, pm float64) vt.Col {
	c := vt.CatCol(r, "C:t", n, k, pm)
	if r.Intn(2) == 0 { // a rare class and a common one
		for i := range c.Lab {
			if r.Intn(3) > 0 {
				c.Lab[i] = "c0"
			}
		}
	}
	if r.Intn(2) == 0 { // labels no case has
		c.Pre = append(vt.Labels(k), "nobody")
		r.Shuffle(len(c.Pre), func(a, b int) { c.Pre[a], c.Pre[b] = c.Pre[b], c.Pre[a] })
	}
	c.Miss[r.Intn(n)] = false
	return c
}

func labs(c *vt.Col) []string {
	s := make([]string, len(c.Lab))
	for i := range s {
		s[i] = c.Lab[i]
		if c.Miss[i] {
			s[i] = "NA"
		}
	}
	return s
}

// tells which cases the leaves of a forest were made from
type spy struct {
	*CF.DenseNumFeature
	got *[]int
}

func (s spy) FindPredicted(cases []int) string {
	*s.got = append(*s.got, cases...)
	return s.DenseNumFeature.FindPredicted(cases)
}

type spycat struct {
	*CF.DenseCatFeature
	got *[]int
}

func (s spycat) FindPredicted(cases []int) string {
	*s.got = append(*s.got, cases...)
	return s.DenseCatFeature.FindPredicted(cases)
}

func main() {
	r := vt.Start()
	reps := vt.N(60, 800)
	for i := 0; i < reps; i++ {
		put(vt.ID("repl", i), func() (ev []vt.M) {
			total := 1 + r.Intn(6)
			n := r.Intn(12)
			ev = append(ev, vt.M{"op": "repl", "n": n, "total": total, "got": vt.One(CF.SampleWithReplacment(n, total))})
			counts := make([]int, total)
			draws, dupes, samples := 0, 0, 150*total
			n = 2 + r.Intn(4)
			for k := 0; k < samples; k++ {
				s := CF.SampleWithReplacment(n, total)
				for _, c := range s {
					counts[c]++
					draws++
				}
				if s[0] == s[1] {
					dupes++
				}
			}
			return append(ev, vt.M{"op": "replshare", "counts": counts, "draws": draws, "dupes": dupes, "samples": samples})
		})
		put(vt.ID("first", i), func() (ev []vt.M) {
			deck := r.Perm(1 + r.Intn(8))
			for k := 0; k < 6; k++ {
				nc := r.Intn(len(deck) + 1)
				if r.Intn(2) == 0 {
					nc = 0
				}
				n := r.Intn(len(deck) + 3)
				before := vt.Ints(deck)
				got := []int{}
				CF.SampleFirstN(&deck, &got, n, nc)
				ev = append(ev, vt.M{"op": "first", "before": before, "after": vt.Ints(deck), "got": vt.Ints(got), "n": n, "k": nc})
				if r.Intn(3) == 0 {
					before = vt.Ints(deck)
					CF.SampleFirstN(&deck, nil, n, nc)
					ev = append(ev, vt.M{"op": "first", "before": before, "after": vt.Ints(deck), "got": []int{}, "n": 0, "k": nc})
				}
			}
			m := 2 + r.Intn(5)
			n := 1 + r.Intn(m)
			counts := make([]int, m)
			places := make([][]int, n)
			for p := range places {
				places[p] = make([]int, m)
			}
			for k := 0; k < 150*m; k++ {
				deck := make([]int, m)
				for j := range deck {
					deck[j] = j
				}
				got := []int{}
				CF.SampleFirstN(&deck, &got, n, 0)
				for p, c := range got {
					counts[c]++
					places[p][c]++
				}
			}
			return append(ev, vt.M{"op": "firstshare", "counts": counts, "places": places, "n": n, "len": m, "reps": 150 * m})
		})
		put(vt.ID("balanced", i), func() (ev []vt.M) {
			n := 1 + r.Intn(14)
			c := classes(r, n, 1+r.Intn(4), []float64{0, 0.3}[r.Intn(2)])
			s := CF.NewBalancedSampler(c.Feature().(*CF.DenseCatFeature))
			got := []int{1, 2, 3}
			k := r.Intn(20)
			s.Sample(&got, k)
			ev = append(ev, vt.M{"op": "balanced", "cls": labs(&c), "n": k, "got": vt.One(got)})
			counts := make([]int, n)
			draws := 150 * 5 * n
			for d := 0; d < draws; d += 5 {
				s.Sample(&got, 5)
				for _, x := range got {
					counts[x]++
				}
			}
			return append(ev, vt.M{"op": "balshare", "cls": labs(&c), "counts": counts, "draws": draws})
		})
		put(vt.ID("secondary", i), func() (ev []vt.M) {
			n := 2 + r.Intn(12)
			c := classes(r, n, 1+r.Intn(3), []float64{0, 0.2}[r.Intn(2)])
			b := classes(r, n, 1+r.Intn(3), []float64{0, 0.2}[r.Intn(2)])
			j := r.Intn(n)
			c.Miss[j], b.Miss[j] = false, false
			s := CF.NewSecondaryBalancedSampler(c.Feature().(*CF.DenseCatFeature), b.Feature().(*CF.DenseCatFeature))
			got := []int{1, 2, 3}
			k := r.Intn(20)
			s.Sample(&got, k)
			ev = append(ev, vt.M{"op": "secondary", "cls": labs(&c), "str": labs(&b), "n": k, "got": vt.One(got)})
			counts := make([]int, n)
			draws := 200 * 5 * n
			for d := 0; d < draws; d += 5 {
				s.Sample(&got, 5)
				for _, x := range got {
					counts[x]++
				}
			}
			return append(ev, vt.M{"op": "secshare", "cls": labs(&c), "str": labs(&b), "counts": counts, "draws": draws})
		})
		put(vt.ID("forest", i), func() (ev []vt.M) {
			n := 2 + r.Intn(8)
			pm := []float64{0, 0.3}[r.Intn(2)]
			got := []int{}
			var target CF.Target
			var col vt.Col
			preds := vt.RandTable(r, n, 1+r.Intn(2), r.Intn(2), 4, 0).Cols
			if r.Intn(2) == 0 {
				col = vt.NumCol(r, "N:t", n, 5, pm)
			} else {
				col = classes(r, n, 3, pm)
			}
			col.Miss[r.Intn(n)] = false
			tab := vt.Table{Cols: append([]vt.Col{col}, preds...)}
			fm := tab.FM()
			if f, ok := fm.Data[0].(*CF.DenseNumFeature); ok {
				target = spy{f, &got}
			} else {
				target = spycat{fm.Data[0].(*CF.DenseCatFeature), &got}
			}
			cands := []int{}
			for k := range preds {
				cands = append(cands, k+1)
			}
			nSamples := 1 + r.Intn(2*n)
			counts := make([]int, n)
			draws := 0
			trees := 150 * n / nSamples
			for k := 0; k < trees+3; k++ {
				got = got[:0]
				f := CF.GrowRandomForest(fm, target, cands, nSamples, len(cands), 1, 1, 0, false, false, false, false, nil)
				if k < 3 {
					ev = append(ev, vt.M{"op": "bag", "miss": col.Miss, "n": nSamples, "got": vt.One(got)})
				}
				if len(f.Trees) != 1 {
					panic("number of trees")
				}
				for _, x := range got {
					counts[x]++
					draws++
				}
			}
			return append(ev, vt.M{"op": "bagshare", "miss": col.Miss, "counts": counts, "draws": draws})
		})
	}
	vt.Done()
}
