// Package vt holds what the trace recording drivers share: writing traces, exact
// numbers, tables of data described independently of the code under test.
package vt

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"sync"

	CF "github.com/ryanbressler/CloudForest"
)

type M map[string]interface{}

var (
	Seed = flag.Int64("seed", 1, "")
	Tier = flag.String("tier", "quick", "")
	Out  = flag.String("out", "", "")
	Gen  = flag.String("gen", "", "")
	w    *bufio.Writer
	fl   *os.File
	mu   sync.Mutex
	n    int
)

func Start() *rand.Rand {
	flag.Parse()
	var err error
	fl, err = os.Create(*Out)
	if err != nil {
		panic(err)
	}
	w = bufio.NewWriterSize(fl, 1<<20)
	rand.Seed(*Seed)
	return rand.New(rand.NewSource(*Seed * 7919))
}

func Done() { w.Flush(); fl.Close() }

func Flush() { w.Flush() }

func Thorough() bool { return *Tier == "thorough" }

// N picks the number of cases by tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Put writes one trace.
func Put(t M) {
	b, err := json.Marshal(t)
	if err != nil {
		panic(err)
	}
	mu.Lock()
	w.Write(b)
	w.WriteByte('\n')
	w.Flush() // the code under test may end the process
	n++
	mu.Unlock()
}

func ID(kind string, i int) string { return fmt.Sprintf("%s-%d", kind, i) }

// Num is the exact rational a float64 denotes.
func Num(x float64) string {
	if math.IsNaN(x) {
		return "nan"
	}
	if math.IsInf(x, 1) {
		return "inf"
	}
	if math.IsInf(x, -1) {
		return "-inf"
	}
	return new(big.Rat).SetFloat64(x).RatString()
}

func Nums(x []float64) []string {
	r := make([]string, len(x))
	for i, v := range x {
		r[i] = Num(v)
	}
	return r
}

// Catch runs f and reports a panic as text ("" if there was none).
func Catch(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
		}
	}()
	f()
	return
}

// One turns 0-based indexes into the 1-based ones of TLA+ sequences.
func One(c []int) []int {
	r := make([]int, len(c))
	for i, v := range c {
		r[i] = v + 1
	}
	return r
}

func Ints(c []int) []int { return append([]int{}, c...) }

// ---- tables ---------------------------------------------------------------------

type Col struct {
	Name string
	Cat  bool
	Num  []float64
	Lab  []string
	Miss []bool
	// order in which category labels are registered before the data is appended
	Pre []string
}

type Table struct{ Cols []Col }

func (t *Table) N() int { return len(t.Cols[0].Miss) }

func (c *Col) Feature() CF.Feature {
	if c.Cat {
		f := &CF.DenseCatFeature{CatMap: &CF.CatMap{Map: map[string]int{}, Back: []string{}}, Name: c.Name}
		for _, l := range c.Pre {
			f.CatToNum(l)
		}
		for i := range c.Miss {
			if c.Miss[i] {
				f.Append("NA")
			} else {
				f.Append(c.Lab[i])
			}
		}
		return f
	}
	f := &CF.DenseNumFeature{Name: c.Name}
	for i := range c.Miss {
		if c.Miss[i] {
			f.Append("NA")
		} else {
			f.Append("0")
			f.Put(i, c.Num[i])
		}
	}
	return f
}

// FM builds the implementation's matrix from the table.
func (t *Table) FM() *CF.FeatureMatrix {
	fm := &CF.FeatureMatrix{Data: nil, Map: map[string]int{}}
	for i := range t.Cols {
		fm.Map[t.Cols[i].Name] = i
		fm.Data = append(fm.Data, t.Cols[i].Feature())
	}
	for i := 0; i < t.N(); i++ {
		fm.CaseLabels = append(fm.CaseLabels, fmt.Sprintf("case%d", i))
	}
	return fm
}

// JSON is the table as the specification sees it: a sequence of columns.
func (t *Table) JSON() []M {
	r := []M{}
	for _, c := range t.Cols {
		r = append(r, c.JSON())
	}
	return r
}

func (c *Col) JSON() M {
	v := make([]string, len(c.Miss))
	for i := range c.Miss {
		switch {
		case c.Miss[i]:
			v[i] = "NA"
		case c.Cat:
			v[i] = c.Lab[i]
		default:
			v[i] = Num(c.Num[i])
		}
	}
	k := "num"
	if c.Cat {
		k = "cat"
	}
	return M{"name": c.Name, "kind": k, "val": v, "miss": append([]bool{}, c.Miss...)}
}

func Labels(n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = fmt.Sprintf("c%d", i)
	}
	return r
}

// NumCol draws from a palette of values that includes ties, negatives and fractions.
func NumCol(r *rand.Rand, name string, n int, distinct int, pmiss float64) Col {
	pal := make([]float64, distinct)
	for i := range pal {
		switch r.Intn(4) {
		case 0:
			pal[i] = float64(r.Intn(9) - 4)
		case 1:
			pal[i] = float64(r.Intn(64)-32) / 8
		case 2:
			pal[i] = math.Round(r.NormFloat64()*1000) / 1000
		default:
			pal[i] = r.NormFloat64()
		}
	}
	c := Col{Name: name, Miss: make([]bool, n), Num: make([]float64, n)}
	for i := 0; i < n; i++ {
		c.Num[i] = pal[r.Intn(distinct)]
		c.Miss[i] = r.Float64() < pmiss
	}
	return c
}

// Near makes the distinct values of a numeric column near neighbours of each other.
func Near(r *rand.Rand, c *Col) {
	if c.Cat {
		return
	}
	base := []float64{1, 1e6, -1e6, 1.5e9, 1e-3}[r.Intn(5)]
	eps := []float64{1e-3, 1e-9, 1e-12, 1e-15}[r.Intn(4)]
	at := map[float64]float64{}
	for i, v := range c.Num {
		if _, ok := at[v]; !ok {
			at[v] = base * (1 + float64(len(at))*eps)
		}
		c.Num[i] = at[v]
	}
}

func CatCol(r *rand.Rand, name string, n int, ncats int, pmiss float64) Col {
	labs := Labels(ncats)
	c := Col{Name: name, Cat: true, Miss: make([]bool, n), Lab: make([]string, n)}
	p := r.Perm(ncats)
	for _, i := range p {
		c.Pre = append(c.Pre, labs[i])
	}
	if r.Intn(2) == 0 {
		c.Pre = nil
	}
	for i := 0; i < n; i++ {
		c.Lab[i] = labs[r.Intn(ncats)]
		c.Miss[i] = r.Float64() < pmiss
	}
	return c
}

func RandTable(r *rand.Rand, n int, nnum int, ncat int, maxcats int, pmiss float64) *Table {
	t := &Table{}
	for i := 0; i < nnum; i++ {
		t.Cols = append(t.Cols, NumCol(r, fmt.Sprintf("N:n%d", i), n, 1+r.Intn(n+2), pmiss))
	}
	for i := 0; i < ncat; i++ {
		t.Cols = append(t.Cols, CatCol(r, fmt.Sprintf("C:k%d", i), n, 1+r.Intn(maxcats), pmiss))
	}
	r.Shuffle(len(t.Cols), func(i, j int) { t.Cols[i], t.Cols[j] = t.Cols[j], t.Cols[i] })
	return t
}

// ---- trees ----------------------------------------------------------------------

// TreeJSON lists the nodes of a tree in preorder (left, right, missing); children are
// 1-based indexes, 0 when absent.  It reads exported fields only.
func TreeJSON(root *CF.Node) []M {
	out := []M{}
	var walk func(n *CF.Node) int
	walk = func(n *CF.Node) int {
		if n == nil {
			return 0
		}
		if len(out) > 100000 {
			panic("tree too large or cyclic")
		}
		i := len(out)
		out = append(out, nil)
		m := M{"pred": n.Pred, "kind": "leaf", "feat": "", "value": "0", "left": []string{}}
		if n.Splitter != nil {
			m["feat"] = n.Splitter.Feature
			m["kind"] = "cat"
			if n.Splitter.Numerical {
				m["kind"] = "num"
				m["value"] = Num(n.Splitter.Value)
			} else {
				m["left"] = TrueKeys(n.Splitter.Left)
			}
		}
		out[i] = m
		m["l"] = walk(n.Left)
		m["r"] = walk(n.Right)
		m["m"] = walk(n.Missing)
		return i + 1
	}
	walk(root)
	return out
}

// RandTree is a random tree over the table's features, grown by AddNode or by hand
func RandTree(r *rand.Rand, t *Table, depth int) *CF.Node {
	if depth == 0 || r.Intn(4) == 0 {
		return &CF.Node{}
	}
	c := t.Cols[r.Intn(len(t.Cols))]
	n := &CF.Node{Splitter: &CF.Splitter{Feature: c.Name}}
	if c.Cat {
		n.Splitter.Left = map[string]bool{}
		for _, l := range append(append([]string{}, c.Lab...), "unknown-label") {
			if r.Intn(2) == 0 {
				n.Splitter.Left[l] = true
			} else if r.Intn(4) == 0 {
				n.Splitter.Left[l] = false
			}
		}
	} else {
		n.Splitter.Numerical = true
		i, j := r.Intn(len(c.Num)), r.Intn(len(c.Num))
		switch r.Intn(6) {
		case 0:
			n.Splitter.Value = math.MaxFloat64
		case 1:
			n.Splitter.Value = -math.MaxFloat64
		case 2, 3:
			n.Splitter.Value = c.Num[i]
		case 4:
			n.Splitter.Value = math.Nextafter(c.Num[i], c.Num[i]-1)
		default:
			n.Splitter.Value = (c.Num[i] + c.Num[j]) / 2
		}
	}
	n.Left = RandTree(r, t, depth-1)
	n.Right = RandTree(r, t, depth-1)
	if r.Intn(2) == 0 {
		n.Missing = RandTree(r, t, depth-1)
	}
	return n
}

func TrueKeys(m map[string]bool) []string {
	r := []string{}
	for k, v := range m {
		if v {
			r = append(r, k)
		}
	}
	// deterministic order
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j] < r[i] {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

// PathJSON lists the nodes with their paths ("*", "*L", "*LM"), parents first.
func PathJSON(root *CF.Node) []M {
	out := []M{}
	var walk func(n *CF.Node, path string)
	walk = func(n *CF.Node, path string) {
		if n == nil {
			return
		}
		if len(out) > 100000 || len(path) > 5000 {
			panic("tree too large or cyclic")
		}
		out = append(out, NodeJSON(path, n.Pred, n.Splitter))
		walk(n.Left, path+"L")
		walk(n.Right, path+"R")
		walk(n.Missing, path+"M")
	}
	walk(root, "*")
	return out
}

func NodeJSON(path, pred string, s *CF.Splitter) M {
	m := M{"path": path, "parent": "", "pred": pred, "kind": "leaf", "feat": "", "value": "0", "left": []string{}}
	if len(path) > 1 {
		m["parent"] = path[:len(path)-1]
	}
	if s != nil {
		m["feat"] = s.Feature
		m["kind"] = "cat"
		if s.Numerical {
			m["kind"] = "num"
			m["value"] = Num(s.Value)
		} else {
			m["left"] = TrueKeys(s.Left)
		}
	}
	return m
}

// WeightJSON is a tree's weight; a negative one means it has none.
func WeightJSON(w float64) string {
	if w < 0 {
		return "none"
	}
	return Num(w)
}

func TreeRec(t *CF.Tree) M {
	return M{"target": t.Target, "num": WeightJSON(t.Weight), "nodes": PathJSON(t.Root)}
}

func ForestRec(f *CF.Forest) M {
	ts := []M{}
	for _, t := range f.Trees {
		ts = append(ts, TreeRec(t))
	}
	return M{"target": f.Target, "num": Num(f.Intercept), "trees": ts}
}

// ---- a ballot box that records who voted what -------------------------------------

type RecBox struct{ Votes map[int][]M }

func NewRecBox() *RecBox { return &RecBox{map[int][]M{}} }
func (b *RecBox) Vote(casei int, pred string, weight float64) {
	b.Votes[casei] = append(b.Votes[casei], M{"pred": pred, "weight": Num(weight)})
}
func (b *RecBox) TallyError(f CF.Feature) float64 { return 0 }
func (b *RecBox) Tally(i int) string              { return "NA" }

// Preds lists, per case 0..n-1, the predictions voted for it.
func (b *RecBox) Preds(n int) [][]string {
	r := make([][]string, n)
	for i := range r {
		r[i] = []string{}
		for _, v := range b.Votes[i] {
			r[i] = append(r[i], v["pred"].(string))
		}
	}
	return r
}

// NumStr is the number a prediction spells.
func NumStr(s string) string {
	x, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return "nan"
	}
	return Num(x)
}

// GrownJSON is TreeJSON with numeric predictions exact and a number for every node object:
// nodes of a jungle have several parents and are listed once under each of them.
func GrownJSON(root *CF.Node) []M {
	ns := TreeJSON(root)
	seen := map[*CF.Node]int{}
	k := 0
	root.Climb(func(n *CF.Node) {
		if seen[n] == 0 {
			seen[n] = len(seen) + 1
		}
		ns[k]["id"] = seen[n]
		ns[k]["num"] = NumStr(n.Pred)
		k++
	})
	return ns
}
