// conc records concurrent use of ballot boxes, running means and sparse counters.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

var small = flag.Bool("small", false, "") // for the race detector's build

type box interface {
	CF.VoteTallyer
}

func newBox(kind string, n int) box {
	switch kind {
	case "cat":
		return CF.NewCatBallotBox(n)
	case "num":
		return CF.NewNumBallotBox(n)
	}
	return CF.NewSumBallotBox(n)
}

// together starts g goroutines at one moment and waits for them
func together(g int, f func(g int)) {
	var ready int32
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < int32(g) {
				runtime.Gosched()
			}
			f(i)
		}(i)
	}
	wg.Wait()
}

func histories(r *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		kind := []string{"cat", "num", "sum", "rm"}[i%4]
		ncase := 1 + r.Intn(2)
		g, per := 2+r.Intn(2), 1+r.Intn(3)
		var b box
		rms := *CF.NewRunningMeans(ncase)
		k := kind
		if kind == "rm" {
			k = "num"
		} else {
			b = newBox(kind, ncase)
		}
		ops := make([]vt.M, g*per)
		for o := range ops {
			c := r.Intn(ncase)
			if r.Intn(3) > 0 {
				p := vt.Labels(3)[r.Intn(3)]
				if k != "cat" {
					p = fmt.Sprint(r.Intn(7) - 3)
				}
				ops[o] = vt.M{"op": "vote", "c": c + 1, "pred": p, "w": []string{"1", "2", "3"}[r.Intn(3)]}
			} else if kind == "rm" {
				ops[o] = vt.M{"op": "read", "c": c + 1}
			} else {
				ops[o] = vt.M{"op": "tally", "c": c + 1}
			}
		}
		var clock int64
		at := make([][2]int64, len(ops))
		together(g, func(t int) {
			for o := t * per; o < (t+1)*per; o++ {
				m := ops[o]
				c := m["c"].(int) - 1
				at[o][0] = atomic.AddInt64(&clock, 1)
				switch m["op"] {
				case "vote":
					w := CF.ParseFloat(m["w"].(string))
					if b == nil {
						rms[c].WeightedAdd(CF.ParseFloat(m["pred"].(string)), w)
					} else {
						b.Vote(c, m["pred"].(string), w)
					}
				case "tally":
					m["got"] = b.Tally(c)
				case "read":
					x, y := rms[c].Read()
					m["mean"], m["count"] = vt.Num(x), vt.Num(y)
				}
				at[o][1] = atomic.AddInt64(&clock, 1)
			}
		})
		ev := make([]vt.M, 2*len(ops))
		for o := range ops {
			ev[at[o][0]-1] = vt.M{"op": "inv", "o": o + 1}
			ev[at[o][1]-1] = vt.M{"op": "ret", "o": o + 1}
		}
		vt.Put(vt.M{"id": vt.ID("h-"+kind, i), "what": "lin", "kind": k, "n": ncase, "ops": ops, "ev": ev})
	}
}

// stress casts votes that nearly cancel, so that any lost one shows in the tally
func stress(r *rand.Rand, n, per int) {
	for i := 0; i < n; i++ {
		kind := []string{"cat", "num", "sum", "rm"}[i%4]
		ncase := 1 + r.Intn(3)
		g := 8
		k := kind
		var b box
		rms := *CF.NewRunningMeans(ncase)
		if kind == "rm" {
			k = "num"
		} else {
			b = newBox(kind, ncase)
		}
		labs := vt.Labels(2)
		tr := vt.NumCol(r, "N:t", ncase, 2, 0)
		if kind == "cat" {
			tr = vt.CatCol(r, "C:t", ncase, 2, 0)
		}
		truth := tr.Feature()
		var stop int32
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { // someone tallies all the time
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				for c := 0; c < ncase; c++ {
					if b == nil {
						rms[c].Read()
					} else {
						b.Tally(c)
					}
				}
				if b != nil && kind == "cat" {
					b.TallyError(truth)
				}
				runtime.Gosched()
			}
		}()
		extra := make([]string, g)
		for t := range extra {
			extra[t] = fmt.Sprintf("own%d", t)
		}
		together(g, func(t int) {
			for v := 0; v < per; v++ {
				for c := 0; c < ncase; c++ {
					for x := 0; x < 2; x++ {
						switch {
						case b == nil:
							rms[c].Add(float64(x))
						case kind == "cat":
							b.Vote(c, labs[x], 1)
						default:
							b.Vote(c, fmt.Sprint(x), 1)
						}
					}
				}
				if kind == "cat" && v%50 == 0 { // new labels keep coming
					b.Vote(0, fmt.Sprintf("%s-%d", extra[t], v), 0.5)
				}
			}
			if kind == "cat" && t == 0 { // breaks the tie
				for c := 0; c < ncase; c++ {
					b.Vote(c, labs[c%2], 1)
				}
			}
		})
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
		ev := []vt.M{}
		for c := 0; c < ncase; c++ {
			for x := 0; x < 2; x++ {
				p := fmt.Sprint(x)
				if kind == "cat" {
					p = labs[x]
				}
				ev = append(ev, vt.M{"op": "votes", "c": c + 1, "pred": p, "w": "1", "times": fmt.Sprint(g * per)})
			}
			if kind == "cat" {
				ev = append(ev, vt.M{"op": "votes", "c": c + 1, "pred": labs[c%2], "w": "1", "times": "1"})
			}
			if b == nil {
				continue
			}
			ev = append(ev, vt.M{"op": "tally", "c": c + 1, "got": b.Tally(c)})
			if tn, ok := b.(interface{ TallyNum(int) float64 }); ok {
				ev = append(ev, vt.M{"op": "tallynum", "c": c + 1, "got": vt.Num(tn.TallyNum(c))})
			}
		}
		if b == nil {
			// one running mean per trace
			x, y := rms[0].Read()
			ev = append(ev[:2], vt.M{"op": "read", "mean": vt.Num(x), "count": vt.Num(y)})
		}
		vt.Put(vt.M{"id": vt.ID("s-"+kind, i), "what": "ballot", "kind": k, "n": ncase, "truth": tr.JSON(), "ev": ev})
	}
}

func counters(r *rand.Rand, n, per int) {
	for i := 0; i < n; i++ {
		sc := new(CF.SparseCounter)
		size, g := 1+r.Intn(4), 1+r.Intn(8)
		ev := []vt.M{}
		plan := make([][]int, g)
		for t := range plan {
			plan[t] = []int{r.Intn(size), r.Intn(size), r.Intn(size), 1 + r.Intn(3)}
		}
		together(g, func(t int) {
			p := plan[t]
			for k := 0; k < per; k++ {
				sc.Add(p[0], p[1], p[3])
				sc.Add(p[0], p[2], 1)
				if k%64 == 0 {
					sc.WriteTsv(new(bytes.Buffer))
				}
			}
		})
		for _, p := range plan {
			ev = append(ev, vt.M{"op": "add", "i": p[0], "j": p[1], "v": p[3], "times": per},
				vt.M{"op": "add", "i": p[0], "j": p[2], "v": 1, "times": per})
		}
		var buf bytes.Buffer
		sc.WriteTsv(&buf)
		rows := [][]int{}
		for _, l := range strings.Split(strings.TrimSpace(buf.String()), "\n") {
			var a, b, v int
			if _, err := fmt.Sscanf(l, "%d\t%d\t%d", &a, &b, &v); err != nil {
				a, b, v = -1, -1, -1
			}
			rows = append(rows, []int{a, b, v})
		}
		ev = append(ev, vt.M{"op": "dump", "rows": rows})
		vt.Put(vt.M{"id": vt.ID("counter", i), "what": "counter", "ev": ev})
	}
}

func main() {
	r := vt.Start()
	if *small {
		histories(r, 120)
		stress(r, 12, 60)
		counters(r, 10, 40)
	} else {
		histories(r, vt.N(800, 6000))
		stress(r, vt.N(24, 200), vt.N(4000, 20000))
		counters(r, vt.N(20, 200), vt.N(1000, 5000))
	}
	vt.Done()
}
