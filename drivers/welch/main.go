// welch records Welch tests of random groups of numbers.
package main

import (
	"math"
	"math/rand"

	"github.com/ryanbressler/CloudForest/stats"
	"vdrv/vt"
)

func group(r *rand.Rand, n int, style int) (x []float64) {
	x = make([]float64, n)
	base := float64(r.Intn(7)-3) * []float64{0, 1, 10, 1000}[r.Intn(4)]
	if r.Intn(12) == 0 {
		base *= 1e6
	}
	scale := math.Pow(10, float64(r.Intn(8)-4))
	for i := range x {
		switch style {
		case 0:
			x[i] = float64(r.Intn(9))
		case 1:
			x[i] = base + float64(r.Intn(64))/8
		case 2:
			x[i] = base + r.NormFloat64()
		case 3:
			x[i] = scale * r.Float64()
		case 4:
			x[i] = base + 1
		case 5: // importances: mostly none
			if r.Intn(3) == 0 {
				x[i] = scale * r.Float64()
			}
		default:
			x[i] = scale * (base + r.ExpFloat64())
		}
	}
	return
}

func main() {
	r := vt.Start()
	n := vt.N(600, 8000)
	for i := 0; i < n; i++ {
		size := func() int {
			if r.Intn(15) == 0 {
				return 30 + r.Intn(60)
			}
			return 2 + r.Intn(11)
		}
		style := r.Intn(7)
		a := group(r, size(), style)
		var b []float64
		switch r.Intn(6) {
		case 0, 1: // the same spread somewhere else
			d := float64(r.Intn(33)-16) / 4
			if style == 3 || style > 4 {
				d *= math.Pow(10, float64(r.Intn(8)-5))
			}
			b = make([]float64, len(a))
			for k, p := range r.Perm(len(a)) {
				b[k] = a[p] + d
			}
		case 2:
			b = make([]float64, size())
			if r.Intn(2) == 0 {
				c := group(r, 1, r.Intn(7))[0]
				for k := range b {
					b[k] = c
				}
			}
		default:
			if r.Intn(2) == 0 {
				style = r.Intn(7)
			}
			b = group(r, size(), style)
		}
		if r.Intn(4) == 0 {
			a, b = b, a
		}
		ev := []vt.M{}
		record := func(a, b []float64) {
			a0, b0 := append([]float64{}, a...), append([]float64{}, b...)
			p, t, v, am := stats.Ttest(&a, &b)
			m, va, na := stats.MeanAndVar(&b)
			ev = append(ev, vt.M{"op": "ttest", "a": vt.Nums(a0), "b": vt.Nums(b0), "p": vt.Num(p), "t": vt.Num(t), "v": vt.Num(v), "am": vt.Num(am),
				"bm": vt.Num(m), "bv": vt.Num(va), "bn": vt.Num(na), "a1": vt.Nums(a), "b1": vt.Nums(b)})
		}
		if p := vt.Catch(func() { record(a, b); record(b, a) }); p != "" {
			ev = append(ev, vt.M{"op": "panic", "msg": p})
		}
		vt.Put(vt.M{"id": vt.ID("ttest", i), "ev": ev})
	}
	vt.Done()
}
