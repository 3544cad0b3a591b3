// sorts records arrays before and after sortby.SortBy.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"

	CF "github.com/ryanbressler/CloudForest"
	"github.com/ryanbressler/CloudForest/sortby"
	"vdrv/vt"
)

var viaFeature bool

func record(id string, cs []int, vs []float64, n int, dups bool) {
	cs0, vs0 := vt.Ints(cs), append([]float64{}, vs...)
	e := vt.M{"op": "sort", "n": n, "dups": dups, "cs0": cs0, "vs0": vt.Nums(vs0)}
	ccs, cvs := vt.Ints(cs), append([]float64{}, vs...)
	p := vt.Catch(func() {
		if viaFeature {
			s := &CF.SortableFeature{Vals: cvs, Cases: ccs[:n]}
			s.Sort()
		} else {
			sl := ccs[:n]
			sortby.SortBy(&sl, &cvs)
		}
	})
	if p != "" {
		e = vt.M{"op": "panic", "msg": p}
	} else {
		e["cs1"], e["vs1"] = ccs, vt.Nums(cvs)
	}
	vt.Put(vt.M{"id": id, "ev": []vt.M{e}})
}

// killer builds an input on which the median of three quicksort degenerates
// (McIlroy's adversary run against a copy of the algorithm), so that the
// heapsort fallback is reached.
func killer(n int) []float64 {
	const gas = math.MaxInt32
	val := make([]int, n)
	for i := range val {
		val[i] = gas
	}
	solid, cand := 0, 0
	cmp := func(x, y int) int {
		if val[x] == gas && val[y] == gas {
			if x == cand {
				val[x] = solid
			} else {
				val[y] = solid
			}
			solid++
		}
		if val[x] == gas {
			cand = x
		} else if val[y] == gas {
			cand = y
		}
		return val[x] - val[y]
	}
	it := make([]int, n)
	for i := range it {
		it[i] = i
	}
	less := func(i, j int) bool { return cmp(it[i], it[j]) < 0 }
	sw := func(i, j int) { it[i], it[j] = it[j], it[i] }
	med := func(a, b, c int) {
		if less(a, b) {
			sw(a, b)
		}
		if less(c, a) {
			sw(c, a)
		}
		if less(a, b) {
			sw(a, b)
		}
	}
	var qs func(a, b, depth int)
	qs = func(a, b, depth int) {
		for b-a > 7 {
			if depth == 0 {
				return
			}
			depth--
			lo, hi := a, b
			m := lo + (hi-lo)/2
			if hi-lo > 40 {
				s := (hi - lo) / 8
				med(lo, lo+s, lo+2*s)
				med(m, m-s, m+s)
				med(hi-1, hi-1-s, hi-1-2*s)
			}
			med(lo, m, hi-1)
			x, y, c, d := lo+1, lo+1, hi, hi
			for {
				for y < c {
					k := cmp(it[y], it[lo])
					if k < 0 {
						y++
					} else if k == 0 {
						sw(x, y)
						x++
						y++
					} else {
						break
					}
				}
				for y < c {
					k := cmp(it[lo], it[c-1])
					if k < 0 {
						c--
					} else if k == 0 {
						c--
						d--
						sw(c, d)
					} else {
						break
					}
				}
				if y >= c {
					break
				}
				sw(y, c-1)
				y++
				c--
			}
			mn := func(p, q int) int {
				if p < q {
					return p
				}
				return q
			}
			k := mn(y-x, x-lo)
			for i := 0; i < k; i++ {
				sw(lo+i, y-k+i)
			}
			k = mn(hi-d, d-c)
			for i := 0; i < k; i++ {
				sw(c+i, hi-k+i)
			}
			ml, mh := lo+y-x, hi-(d-c)
			if ml-a < b-mh {
				qs(a, ml, depth)
				a = mh
			} else {
				qs(mh, b, depth)
				b = ml
			}
		}
	}
	qs(0, n, 1<<30)
	out := make([]float64, n)
	for i := range out {
		out[i] = float64(val[i])
		if val[i] == gas {
			out[i] = float64(n + i)
		}
	}
	return out
}

func ident(r *rand.Rand, n int) []int {
	return r.Perm(n)
}

func main() {
	r := vt.Start()
	k := 0
	emit := func(kind string, vs []float64, n int) {
		viaFeature = r.Intn(4) == 0
		record(fmt.Sprintf("%s-%d", kind, k), ident(r, len(vs)), vs, n, false)
		k++
	}
	// every small array of the specification's instance
	if f, err := os.Open(*vt.Gen); err == nil {
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var x struct{ Vs []int }
			if json.Unmarshal(sc.Bytes(), &x) != nil {
				panic("bad generator line")
			}
			vs := []float64{}
			for _, v := range x.Vs {
				vs = append(vs, float64(v))
			}
			emit("small", append(vs, -7), len(vs))
		}
	}
	fill := func(n int, f func(i int) float64) []float64 {
		v := make([]float64, n)
		for i := range v {
			v[i] = f(i)
		}
		return v
	}
	pats := map[string]func(n int) []float64{
		"random":   func(n int) []float64 { return fill(n, func(i int) float64 { return r.NormFloat64() }) },
		"few":      func(n int) []float64 { return fill(n, func(i int) float64 { return float64(r.Intn(3)) }) },
		"some":     func(n int) []float64 { return fill(n, func(i int) float64 { return float64(r.Intn(n/3 + 1)) }) },
		"equal":    func(n int) []float64 { return fill(n, func(i int) float64 { return 2.5 }) },
		"sorted":   func(n int) []float64 { return fill(n, func(i int) float64 { return float64(i) }) },
		"reversed": func(n int) []float64 { return fill(n, func(i int) float64 { return float64(-i) }) },
		"organ": func(n int) []float64 {
			return fill(n, func(i int) float64 { return math.Min(float64(i), float64(n-i)) })
		},
		"saw":    func(n int) []float64 { return fill(n, func(i int) float64 { return float64(i % 7) }) },
		"blocks": func(n int) []float64 { return fill(n, func(i int) float64 { return float64((i * 5 / (n + 1)) ^ 3) }) },
		"extreme": func(n int) []float64 {
			return fill(n, func(i int) float64 {
				return []float64{math.MaxFloat64, -math.MaxFloat64, 5e-324, 0, math.Inf(1), math.Inf(-1), -1, 1e-300}[r.Intn(8)]
			})
		},
		"killer": func(n int) []float64 { return killer(n) },
	}
	names := []string{"random", "few", "some", "equal", "sorted", "reversed", "organ", "saw", "blocks", "extreme", "killer"}
	sizes := []int{}
	for n := 0; n <= 48; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 63, 64, 65, 100, 127, 129, 200, 400)
	if vt.Thorough() {
		for n := 49; n < 140; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 700, 1500, 3000)
	}
	for _, n := range sizes {
		for _, p := range names {
			v := pats[p](n)
			tail := fill(r.Intn(4), func(i int) float64 { return r.NormFloat64() })
			emit(p, append(v, tail...), n)
		}
	}
	// repeated cases, as in a bootstrap sample
	for i := 0; i < vt.N(60, 400); i++ {
		n := r.Intn(40)
		val := fill(n+1, func(i int) float64 { return float64(r.Intn(9)) })
		cs := make([]int, n)
		vs := make([]float64, n)
		for j := range cs {
			cs[j] = r.Intn(n)
			vs[j] = val[cs[j]]
		}
		viaFeature = i%2 == 0
		record(vt.ID("boot", i), cs, vs, n, true)
	}
	vt.Done()
}
