// chances counts how often the random draws come out one way or another.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

var number = 0

// tally repeats draws of one scheme; a result is t rows
func tally(what string, s vt.M, t, n int, draw func() []int) {
	number++
	id := fmt.Sprintf("%s-%d", strings.Replace(what, " ", "-", -1), number)
	counts := map[string]int{}
	if p := vt.Catch(func() {
		for i := 0; i < n; i++ {
			key := ""
			for j := 0; j < t; j++ {
				for _, x := range draw() {
					key += fmt.Sprint(x) + " "
				}
				key += "|"
			}
			counts[key]++
		}
	}); p != "" {
		vt.Put(vt.M{"id": id, "ev": []vt.M{{"op": "panic", "msg": p}}})
		return
	}
	vt.Put(vt.M{"id": id, "ev": []vt.M{{"op": "chances", "what": what, "s": s, "t": t, "n": n, "counts": counts}}})
}

func one(c []int) []int { return vt.One(c) }

func sorted(c []int) []int {
	c = one(c)
	sort.Ints(c)
	return c
}

// times picks a number of draws whose results stay countable
func times(r *rand.Rand, size, max int) int {
	t := 1
	for size > 0 && t < 3 && r.Intn(2) == 0 && math.Pow(float64(size), float64(t+1)) <= float64(max) {
		t++
	}
	return t
}

func deckOf(n int) []int {
	d := make([]int, n)
	for i := range d {
		d[i] = i
	}
	return d
}

func missing(r *rand.Rand, n int) []bool {
	m := make([]bool, n)
	for i := range m {
		m[i] = r.Intn(3) == 0
	}
	m[r.Intn(n)] = false
	return m
}

func known(m []bool) (k int) {
	for _, x := range m {
		if !x {
			k++
		}
	}
	return
}

// classes of few cases, one of them common
func classes(r *rand.Rand, n, k int) []string {
	s := make([]string, n)
	for i := range s {
		s[i] = fmt.Sprintf("c%d", r.Intn(k))
		if r.Intn(3) == 0 {
			s[i] = "c0"
		}
		if r.Intn(7) == 0 {
			s[i] = "NA"
		}
	}
	s[r.Intn(n)] = "c1"
	return s
}

func column(name string, labs []string, pre []string) *CF.DenseCatFeature {
	c := vt.Col{Name: name, Cat: true, Lab: labs, Miss: make([]bool, len(labs)), Pre: pre}
	for i, l := range labs {
		c.Miss[i] = l == "NA"
	}
	return c.Feature().(*CF.DenseCatFeature)
}

// things makes a feature of n distinguishable values; at most one is missing
func things(r *rand.Rand, name string, n int) (CF.Feature, func(f CF.Feature) []int) {
	miss := -1
	if r.Intn(2) == 0 {
		miss = r.Intn(n)
	}
	c := vt.Col{Name: name, Cat: r.Intn(2) == 0, Miss: make([]bool, n)}
	for i := 0; i < n; i++ {
		c.Lab = append(c.Lab, fmt.Sprintf("v%d", i))
		c.Num = append(c.Num, float64(i)+0.25)
		c.Miss[i] = i == miss
	}
	f := c.Feature()
	return f, func(f CF.Feature) []int {
		got := make([]int, n)
		for i := range got {
			switch g := f.(type) {
			case *CF.DenseNumFeature:
				got[i] = int(g.NumData[i])
			case *CF.DenseCatFeature:
				if g.Missing[i] {
					break
				}
				fmt.Sscanf(g.Back[g.CatData[i]], "v%d", &got[i])
			}
			if f.IsMissing(i) {
				got[i] = miss
			}
		}
		return one(got)
	}
}

// tried is a feature that tells when it is searched
type tried struct {
	CF.Feature
	i        int
	constant bool
	log      *[]int
	seen     func(target CF.Target)
}

func (f *tried) BestSplit(target CF.Target, cases *[]int, parentImp float64, leafSize int, randomSplit bool, allocs *CF.BestSplitAllocs) (interface{}, float64, bool) {
	if f.seen != nil {
		f.seen(target)
	} else {
		*f.log = append(*f.log, f.i)
	}
	if f.constant {
		return nil, 0, true
	}
	return 0.5, 1.0, false
}

type bagged struct {
	*CF.DenseNumFeature
	got *[]int
}

func (s bagged) FindPredicted(cases []int) string {
	*s.got = append((*s.got)[:0], cases...)
	return s.DenseNumFeature.FindPredicted(cases)
}

// parted tells how the cases of a split are divided
type parted struct {
	*CF.DenseNumFeature
	told func(l []int)
}

func (s parted) SplitImpurity(l *[]int, r *[]int, m *[]int, allocs *CF.BestSplitAllocs) float64 {
	s.told(*l)
	return s.DenseNumFeature.SplitImpurity(l, r, m, allocs)
}

func main() {
	r := vt.Start()
	big := vt.N(100000, 800000)
	for i := 0; i < vt.N(6, 24); i++ {
		{ // with replacement
			l, n := 1+r.Intn(6), 1+r.Intn(3)
			tally("cases drawn with replacement", vt.M{"kind": "repl", "len": l, "n": n}, times(r, int(math.Pow(float64(l), float64(n))), 220), big,
				func() []int { return one(CF.SampleWithReplacment(n, l)) })
		}
		for k := 0; k < 2; k++ { // off a deck
			l := 2 + r.Intn(3)
			aside := 0
			if k == 1 {
				aside = 1 + r.Intn(l-1)
			}
			n := 1 + r.Intn(l+k)
			t := 1
			if l < 4 {
				t = 1 + r.Intn(2)
			}
			deck := deckOf(l)
			kept := r.Intn(2) == 0
			tally("cards drawn without replacement", vt.M{"kind": "first", "len": l, "n": n, "k": aside}, t, big, func() []int {
				if !kept {
					deck = deckOf(l)
				}
				got := []int{}
				CF.SampleFirstN(&deck, &got, n, aside)
				return one(got)
			})
		}
		for k := 0; k < 3; k++ { // candidates
			l := 2 + r.Intn(3)
			aside := 0
			if k == 1 {
				aside = 1 + r.Intn(l-1)
			}
			n := 1 + r.Intn(l)
			t := 1
			if l < 4 {
				t = 1 + r.Intn(2)
			}
			target := vt.MakeTarget(r, "gini", 6, nil, 0)
			for target.Target.Impurity(&[]int{0, 1, 2, 3, 4, 5}, CF.NewBestSplitAllocs(6, target.Feat).Counter) <= 1e-6 {
				target = vt.MakeTarget(r, "gini", 6, nil, 0)
			}
			log := []int{}
			fm := &CF.FeatureMatrix{Data: []CF.Feature{target.Feat}, Map: map[string]int{}}
			deck := []int{}
			for j := 1; j <= l; j++ {
				fm.Data = append(fm.Data, &tried{target.Feat, j, r.Intn(3) == 0, &log, nil})
				deck = append(deck, j)
			}
			cases := []int{0, 1, 2, 3, 4, 5}
			allocs := CF.NewBestSplitAllocs(6, target.Feat)
			many, what := big, "candidate features of a search"
			if k == 2 {
				many, what = big/4, "candidate features of searches by new allocations"
			}
			vet := k == 0 && r.Intn(2) == 0
			tally(what, vt.M{"kind": "search", "len": l, "n": n, "k": aside}, t, many, func() []int {
				if k == 2 {
					allocs = CF.NewBestSplitAllocs(6, target.Feat)
				}
				log = log[:0]
				fm.BestSplitter(target.Target, &cases, &deck, n, nil, 1, false, vet, false, false, allocs, aside)
				if vet { // every feature that may be split on is searched again with the shuffled target
					once, seen := []int{}, map[int]bool{}
					for _, f := range log {
						if !seen[f] {
							once = append(once, f)
						}
						seen[f] = true
					}
					return once
				}
				return vt.Ints(log)
			})
		}
		{ // balanced
			n := 2 + r.Intn(5)
			k := 1 + r.Intn(2)
			if n > 4 {
				k = 1
			}
			cls := classes(r, n, 3)
			s := CF.NewBalancedSampler(column("C:t", cls, []string{"nobody", "c2", "c1"}[:r.Intn(4)]))
			got := []int{}
			tally("cases of a balanced sample", vt.M{"kind": "balanced", "cls": cls, "n": k}, times(r, n*k*k, 36), big, func() []int {
				s.Sample(&got, k)
				return one(got)
			})
		}
		{ // balanced in strata
			n := 3 + r.Intn(6)
			cls, str := classes(r, n, 3), classes(r, n, 2+r.Intn(2))
			j := r.Intn(n)
			cls[j], str[j] = "c1", "c1"
			s := CF.NewSecondaryBalancedSampler(column("C:t", cls, []string{"nobody", "c2", "c1"}[:r.Intn(4)]), column("C:s", str, []string{"c1", "nobody"}[:r.Intn(3)]))
			got := []int{}
			tally("cases of a balanced sample in strata", vt.M{"kind": "secondary", "cls": cls, "str": str, "n": 1}, 1+r.Intn(2), big, func() []int {
				s.Sample(&got, 1)
				return one(got)
			})
		}
		{ // shuffles
			n := 1 + r.Intn(4)
			f, read := things(r, "X:x", n)
			t := 1
			if n < 4 {
				t = 1 + r.Intn(2)
			}
			tally("shuffled copies", vt.M{"kind": "perm", "len": n}, t, big, func() []int { return read(f.ShuffledCopy()) })
			// every shuffle starts from what the last one left
			g, at := things(r, "X:y", n)
			before := at(g)
			tally("shuffles in place", vt.M{"kind": "perm", "len": n}, t, big, func() []int {
				g.Shuffle()
				after := at(g)
				where := make([]int, n)
				for i, x := range after {
					for j, y := range before {
						if x == y {
							where[i] = j + 1
						}
					}
				}
				before = after
				return where
			})
			h, see := things(r, "X:z", n+2)
			some := r.Perm(n + 2)[:n]
			allocs := CF.NewBestSplitAllocs(n+2, vt.MakeTarget(r, "gini", n+2, nil, 0).Feat)
			was := see(h)
			tally("shuffled cases", vt.M{"kind": "perm", "len": n}, t, big, func() []int {
				h.ShuffleCases(&some, allocs)
				now := see(h)
				where := make([]int, n)
				for i, a := range some {
					for j, b := range some {
						if now[a] == was[b] {
							where[i] = j + 1
						}
					}
				}
				was = now
				return where
			})
		}
		{ // contrasts
			n, l := 1+r.Intn(3), 1+r.Intn(3)
			fm := &CF.FeatureMatrix{Map: map[string]int{}}
			reads := []func(CF.Feature) []int{}
			for j := 0; j < l; j++ {
				f, read := things(r, fmt.Sprintf("X:%d", j), n)
				fm.Data = append(fm.Data, f)
				reads = append(reads, read)
			}
			reset := func() {
				fm.Data = fm.Data[:l]
				fm.Map = map[string]int{}
				for j := 0; j < l; j++ {
					fm.Map[fm.Data[j].GetName()] = j
				}
			}
			many := r.Intn(2) + 1
			if n*l > 6 {
				many = 1
			}
			queue := [][]int{}
			tally("contrast features", vt.M{"kind": "contrasts", "len": l, "n": n}, many, big/2, func() []int {
				if len(queue) == 0 {
					reset()
					fm.AddContrasts(many)
					for _, f := range fm.Data[l:] {
						var o int
						fmt.Sscanf(f.GetName(), "X:%d:SHUFFLED", &o)
						queue = append(queue, append([]int{o + 1}, reads[o](f)...))
					}
				}
				q := queue[0]
				queue = queue[1:]
				return q
			})
			if n == 3 && l > 2 {
				l = 2
			}
			queue = nil
			tally("contrasts of all features", vt.M{"kind": "perm", "len": n}, l, big/2, func() []int {
				if len(queue) == 0 {
					reset()
					fm.ContrastAll()
					for j := 0; j < l; j++ {
						queue = append(queue, reads[j](fm.Data[l+j]))
					}
				}
				q := queue[0]
				queue = queue[1:]
				return q
			})
		}
		{ // the shuffled target a split is vetted with
			n := 2 + r.Intn(3)
			f, read := things(r, "N:t", n)
			for {
				if _, ok := f.(*CF.DenseNumFeature); ok && !f.MissingVals() {
					break
				}
				f, read = things(r, "N:t", n)
			}
			got := []int{}
			fm := &CF.FeatureMatrix{Data: []CF.Feature{f}, Map: map[string]int{}}
			target := f.(CF.Target)
			fm.Data = append(fm.Data, &tried{Feature: f, i: 1, seen: func(t CF.Target) {
				if t != target {
					got = read(t.(CF.Feature))
				}
			}})
			cases, deck := deckOf(n), []int{1}
			allocs := CF.NewBestSplitAllocs(n, f.(CF.Target))
			tally("shuffled targets of vetting", vt.M{"kind": "perm", "len": n}, 1, big/2, func() []int {
				got = nil
				fm.BestSplitter(target, &cases, &deck, 1, nil, 1, false, true, false, false, allocs, 0)
				return got
			})
		}
		{ // the bags of a forest
			n := 1 + r.Intn(4)
			miss := missing(r, n)
			k := 1 + r.Intn(3)
			col := vt.Col{Name: "N:t", Miss: miss, Num: []float64{1, 2, 3, 4, 5}[:n]}
			x := vt.NumCol(r, "N:x", n, 5, 0)
			tab := vt.Table{Cols: []vt.Col{col, x}}
			fm := tab.FM()
			got := []int{}
			target := bagged{fm.Data[0].(*CF.DenseNumFeature), &got}
			queue := [][]int{}
			_ = queue
			tally("bootstrap samples of a forest", vt.M{"kind": "knownbag", "miss": miss, "n": k}, 1+r.Intn(2), big/5, func() []int {
				CF.GrowRandomForest(fm, target, []int{1}, k, 1, 1, 10, 0, false, false, false, false, nil)
				return sorted(got)
			})
		}
		{ // random divisions of many categories
			n := 11 + r.Intn(20)
			if i%2 == 0 {
				n = 31 + r.Intn(40)
			}
			x := vt.Col{Name: "C:x", Cat: true, Miss: make([]bool, n)}
			y := vt.Col{Name: "N:y", Miss: make([]bool, n), Num: make([]float64, n)}
			for j := 0; j < n; j++ {
				x.Lab = append(x.Lab, fmt.Sprintf("v%d", j))
				y.Num[j] = float64(j * j)
			}
			f := x.Feature().(*CF.DenseCatFeature)
			f.RandomSearch = true
			queue := [][]int{}
			watch := r.Perm(n)[:3]
			if r.Intn(2) == 0 {
				watch = []int{r.Intn(n - 2), n - 2, n - 1}
				r.Shuffle(3, func(a, b int) { watch[a], watch[b] = watch[b], watch[a] })
			}
			target := parted{y.Feature().(*CF.DenseNumFeature), func(l []int) {
				var left [3]bool
				for _, c := range l {
					for k, w := range watch {
						left[k] = left[k] || c == w
					}
				}
				res := []int{0, 0}
				for k := range res {
					if left[0] == left[k+1] {
						res[k] = 1
					}
				}
				queue = append(queue, res)
			}}
			cases := deckOf(n)
			allocs := CF.NewBestSplitAllocs(n, target)
			tally("divisions of many categories", vt.M{"kind": "parts", "len": n, "watch": one(watch)}, 1+r.Intn(2), big/4, func() []int {
				for len(queue) == 0 {
					f.BestSplit(target, &cases, 1e12, 1, false, allocs)
				}
				q := queue[0]
				queue = queue[1:]
				return q
			})
		}
		{ // random cuts
			n := 2 + r.Intn(7)
			leaf := 1 + r.Intn(n/2)
			x := vt.Col{Name: "N:x", Miss: make([]bool, n), Num: make([]float64, n)}
			y := vt.Col{Name: "N:y", Miss: make([]bool, n), Num: make([]float64, n)}
			for j, p := range r.Perm(n) {
				x.Num[j], y.Num[j] = float64(p)*1.5, float64(3*p*p+p)
			}
			f, target := x.Feature(), y.Feature().(CF.Target)
			cases := deckOf(n)
			allocs := CF.NewBestSplitAllocs(n, target)
			parent := target.Impurity(&cases, allocs.Counter)
			tally("random cuts", vt.M{"kind": "extra", "len": n, "n": leaf}, 1+r.Intn(2), big, func() []int {
				code, _, _ := f.BestSplit(target, &cases, parent, leaf, true, allocs)
				left := 0
				for _, v := range x.Num {
					if v <= code.(float64) {
						left++
					}
				}
				return []int{left}
			})
		}
	}
	vt.Done()
}
