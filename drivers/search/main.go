// search records what the split search of a feature returns.
package main

import (
	"math"
	"math/rand"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

// columns whose values are hard to separate
func hardCol(r *rand.Rand, n int) vt.Col {
	c := vt.Col{Name: "N:x", Num: make([]float64, n), Miss: make([]bool, n)}
	base := []float64{1, 1000, 1e9, 1e16, 1e300, math.MaxFloat64, -1e16, 5e-324, 0}[r.Intn(9)]
	mode := r.Intn(5)
	for i := range c.Num {
		switch mode {
		case 0: // neighbouring doubles
			c.Num[i] = base
			for k := r.Intn(4); k > 0; k-- {
				c.Num[i] = math.Nextafter(c.Num[i], math.Inf(-1))
			}
		case 1: // within and beyond the tie distance
			c.Num[i] = 1 + float64(r.Intn(8))*0.3e-7
		case 2: // great magnitudes of both signs
			c.Num[i] = base * float64(r.Intn(3)-1)
		case 3:
			c.Num[i] = math.Exp(r.NormFloat64() * 20)
		default:
			c.Num[i] = []float64{-math.MaxFloat64, -1, 0, 1, math.MaxFloat64}[r.Intn(5)]
		}
	}
	return c
}

func main() {
	r := vt.Start()
	per := vt.N(110, 1500)
	for i := 0; i < per; i++ {
		for _, typ := range vt.AllTypes {
			n := 2 + r.Intn(12)
			if i%55 == 20 {
				n = 40 + r.Intn(40)
			}
			pm := []float64{0, 0, 0.25, 0.6}[r.Intn(4)]
			var col vt.Col
			ncats := 0
			switch k := r.Intn(12); {
			case k < 5:
				col = vt.NumCol(r, "N:x", n, 1+r.Intn(n+2), pm)
			case k < 6 && typ != "trans":
				col = hardCol(r, n)
			default:
				ncats = []int{1, 2, 2, 3, 4, 5, 6, 8, 10, 12, 30, 31, 40, 70}[r.Intn(14)]
				col = vt.CatCol(r, "C:x", n, ncats, pm)
				col.Pre = vt.Labels(ncats)
				r.Shuffle(ncats, func(a, b int) { col.Pre[a], col.Pre[b] = col.Pre[b], col.Pre[a] })
			}
			tc := vt.MakeTarget(r, typ, n, []vt.Col{col}, []float64{0, 0, 0.2}[r.Intn(3)])
			f := tc.FM.Data[1]
			random := false
			if cf, ok := f.(*CF.DenseCatFeature); ok && (r.Intn(3) == 0 || ncats == 10) {
				cf.RandomSearch = true
				random = true
			}
			allocs := CF.NewBestSplitAllocs(n, tc.Feat)
			ev := []vt.M{}
			for rep := 0; rep < 2; rep++ {
				cases := r.Perm(n)
				if r.Intn(2) == 0 { // a bootstrap sample, or part of one
					for j := range cases {
						cases[j] = r.Intn(n)
					}
				}
				cases = cases[:1+r.Intn(n)]
				leaf := 1 + r.Intn(3)
				extra := !col.Cat && r.Intn(6) == 0
				optimal := !extra && (!col.Cat || ncats <= 5 || random && ncats <= 10)
				e := vt.M{"op": "search", "cases": vt.One(cases), "leaf": leaf, "optimal": optimal, "random": random, "value": "0", "left": []string{}}
				if p := vt.Catch(func() {
					coded, dec, constant := f.BestSplit(tc.Target, &cases, tc.Target.Impurity(&cases, allocs.Counter), leaf, extra, allocs)
					e["after"] = vt.One(cases)
					e["constant"] = constant
					e["dec"] = vt.Num(dec)
					e["found"] = dec > 1e-7
					if dec > 1e-7 {
						s := f.DecodeSplit(coded)
						e["value"] = vt.Num(s.Value)
						e["left"] = vt.TrueKeys(s.Left)
					}
				}); p != "" {
					e = vt.M{"op": "panic", "msg": p}
				}
				ev = append(ev, e)
			}
			vt.Put(vt.M{"id": vt.ID(typ, i), "target": tc.T, "col": col.JSON(), "ev": ev})
		}
	}
	vt.Done()
}
