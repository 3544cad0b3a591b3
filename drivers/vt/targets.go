package vt

import (
	"fmt"
	"math/rand"

	CF "github.com/ryanbressler/CloudForest"
)

// A TargetCase is a target of the implementation and its description for the specification.
type TargetCase struct {
	Target CF.Target
	Feat   CF.Feature // the feature behind it (nil for density)
	Tab    *Table     // columns: the target's own column first
	FM     *CF.FeatureMatrix
	T      M
	Type   string
}

var CatTypes = []string{"gini", "entropy", "dentropy", "wrf", "regret", "np", "ada", "adacost", "hdist", "trans"}
var NumTypes = []string{"num", "l1", "ordinal", "numada", "gradboost"}
var AllTypes = append(append([]string{}, CatTypes...), NumTypes...)

func dyadic(r *rand.Rand) float64 { return float64(1+r.Intn(15)) / 4 }

// weights that sum to one, some very unequal
func RandWeights(r *rand.Rand, n int) []float64 {
	w := make([]float64, n)
	s := 0.0
	for i := range w {
		w[i] = float64(1 + r.Intn(20))
		if r.Intn(5) == 0 {
			w[i] *= 50
		}
		s += w[i]
	}
	for i := range w {
		w[i] /= s
	}
	return w
}

// MakeTarget builds a target of the given type on n cases; the matrix's first feature is the target's.
func MakeTarget(r *rand.Rand, typ string, n int, preds []Col, pmiss float64) *TargetCase {
	c := &TargetCase{Type: typ}
	catmiss := 0.0
	if pmiss < 0 {
		// cases of unknown class, too
		catmiss, pmiss = -pmiss, 0
	}
	isCat := false
	for _, k := range CatTypes {
		isCat = isCat || k == typ
	}
	var col Col
	par := M{}
	switch {
	case isCat:
		k := 2 + r.Intn(3)
		if typ == "hdist" {
			k = 2
		}
		col = CatCol(r, "C:t", n, k, catmiss)
		labs := Labels(k)
		if typ == "dentropy" && r.Intn(4) > 0 {
			labs[r.Intn(k)] = "True"
			for i := range col.Lab {
				col.Lab[i] = labs[r.Intn(k)]
			}
		}
		// every label is known to the feature, whether or not a case has it
		col.Pre = append([]string{}, labs...)
		r.Shuffle(k, func(i, j int) { col.Pre[i], col.Pre[j] = col.Pre[j], col.Pre[i] })
		if r.Intn(3) == 0 { // one label dominates
			for i := range col.Lab {
				if r.Intn(3) > 0 {
					col.Lab[i] = labs[0]
				}
			}
		}
	case typ == "ordinal":
		col = Col{Name: "N:t", Num: make([]float64, n), Miss: make([]bool, n)}
		for i := range col.Num {
			col.Num[i] = float64(r.Intn(5))
			col.Miss[i] = r.Float64() < pmiss
		}
	default:
		pm := 0.0
		if typ == "l1" || typ == "numada" {
			pm = pmiss
		}
		d := 1 + r.Intn(n)
		col = NumCol(r, "N:t", n, d, pm)
		if r.Intn(4) == 0 {
			for i := range col.Num {
				col.Num[i] *= 1000
			}
		}
	}
	c.Tab = &Table{Cols: append([]Col{col}, preds...)}
	c.FM = c.Tab.FM()
	c.Feat = c.FM.Data[0]
	cat, _ := c.Feat.(CF.CatFeature)
	num, _ := c.Feat.(CF.NumFeature)
	labs := []string{}
	if cat != nil {
		for i := 0; i < cat.NCats(); i++ {
			labs = append(labs, cat.NumToCat(i))
		}
	}
	perLabel := func() (map[string]float64, M) {
		f, m := map[string]float64{}, M{}
		for _, l := range labs {
			f[l] = dyadic(r)
			m[l] = Num(f[l])
		}
		return f, m
	}
	switch typ {
	case "gini", "num":
		c.Target = c.Feat
	case "entropy":
		c.Target = CF.NewEntropyTarget(cat)
	case "dentropy":
		t := CF.NewDEntropyTarget(cat)
		f, m := perLabel()
		t.SetCosts(f)
		par["cost"] = m
		c.Target = t
	case "wrf":
		f, m := perLabel()
		par["w"] = m
		c.Target = CF.NewWRFTarget(cat, f)
	case "regret":
		t := CF.NewRegretTarget(cat)
		f, m := perLabel()
		t.SetCosts(f)
		par["cost"] = m
		c.Target = t
	case "np":
		pos := labs[r.Intn(len(labs))]
		a := []float64{0.125, 0.25, 0.5, 0.75}[r.Intn(4)]
		k := dyadic(r)
		par["pos"], par["alpha"], par["kappa"] = pos, Num(a), Num(k)
		c.Target = CF.NewNPTarget(cat, pos, a, k)
	case "ada":
		t := CF.NewAdaBoostTarget(cat)
		if r.Intn(4) > 0 {
			copy(t.Weights, RandWeights(r, n))
		}
		par["weights"] = Nums(t.Weights)
		c.Target = t
	case "adacost":
		t := CF.NewAdaCostTarget(cat)
		f, m := perLabel()
		t.SetCosts(f)
		if r.Intn(4) > 0 {
			copy(t.Weights, RandWeights(r, n))
		}
		par["weights"], par["cost"] = Nums(t.Weights), m
		c.Target = t
	case "hdist":
		pos := labs[r.Intn(2)]
		par["pos"] = pos
		c.Target = CF.NewHDistanceTarget(cat, pos)
	case "trans":
		un := labs[r.Intn(len(labs))]
		a := []float64{0, 0.5, 2}[r.Intn(3)]
		b := []float64{0, 0.25, 1}[r.Intn(3)]
		par["alpha"], par["beta"], par["unlabeled"] = Num(a), Num(b), un
		cols := []M{}
		for i := range c.Tab.Cols[1:] {
			cols = append(cols, c.Tab.Cols[1+i].JSON())
		}
		par["cols"] = cols
		c.Target = CF.NewTransTarget(cat, &c.FM.Data, un, a, b, n)
	case "l1":
		c.Target = &CF.L1Target{NumFeature: num}
	case "ordinal":
		c.Target = CF.NewOrdinalTarget(num)
	case "numada":
		t := CF.NewNumAdaBoostTarget(num)
		if r.Intn(4) > 0 {
			copy(t.Weights, RandWeights(r, n))
		}
		par["weights"] = Nums(t.Weights)
		c.Target = t
	case "gradboost":
		t := CF.NewGradBoostTarget(num, 0.5)
		c.Target = t
		// the residuals are what it works on
		for i := range col.Num {
			c.Tab.Cols[0].Num[i] = t.Get(i)
		}
	default:
		panic("vdrv: target type " + typ)
	}
	j := c.Tab.Cols[0].JSON()
	c.T = M{"type": typ, "val": j["val"], "miss": j["miss"], "cats": labs, "par": par}
	return c
}

// MakeDensity is the density target over the given columns.
func MakeDensity(r *rand.Rand, n int, preds []Col) *TargetCase {
	c := &TargetCase{Type: "density", Tab: &Table{Cols: preds}}
	c.FM = c.Tab.FM()
	c.Target = &CF.DensityTarget{Features: &c.FM.Data, N: n}
	cols := c.Tab.JSON()
	c.T = M{"type": "density", "val": make([]string, n), "miss": make([]bool, n), "cats": []string{}, "par": M{"n": n, "cols": cols}}
	return c
}

// Snapshot is everything the matrix holds.
func Snapshot(fm *CF.FeatureMatrix) string {
	s := fmt.Sprintf("%v|%v|", fm.Map, fm.CaseLabels)
	for _, f := range fm.Data {
		switch x := f.(type) {
		case *CF.DenseNumFeature:
			s += fmt.Sprintf("%s %v %v %v|", x.Name, x.NumData, x.Missing, x.HasMissing)
		case *CF.DenseCatFeature:
			s += fmt.Sprintf("%s %v %v %v %v %v|", x.Name, x.CatData, x.Missing, x.HasMissing, x.Back, len(x.Map))
		}
	}
	return s
}
