// route records how the implementation routes cases through trees.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

type jnode struct {
	Kind, Feat, Value, Pred string
	Left                    []string
	L, R, M                 int
}
type jcol struct {
	Name, Kind string
	Val        []string
	Miss       []bool
}

func ratOf(s string) float64 {
	var a, b float64
	if n, _ := fmt.Sscanf(s, "%f/%f", &a, &b); n == 2 {
		return a / b
	}
	fmt.Sscanf(s, "%f", &a)
	return a
}

func build(nodes []jnode, i int) *CF.Node {
	if i == 0 {
		return nil
	}
	j := nodes[i-1]
	n := &CF.Node{Pred: j.Pred}
	if j.Kind == "leaf" {
		return n
	}
	n.Splitter = &CF.Splitter{Feature: j.Feat}
	if j.Kind == "num" {
		n.Splitter.Numerical = true
		n.Splitter.Value = ratOf(j.Value)
	} else {
		n.Splitter.Left = map[string]bool{}
		for _, l := range j.Left {
			n.Splitter.Left[l] = true
		}
	}
	n.Left, n.Right, n.Missing = build(nodes, j.L), build(nodes, j.R), build(nodes, j.M)
	return n
}

// name every leaf uniquely, so that a vote names the leaf it comes from
// (and some trees' inner nodes have predictions too, which are not votes)
var named int

func nameLeaves(root *CF.Node) {
	k := 0
	named++
	root.Climb(func(n *CF.Node) {
		if n.Splitter == nil {
			n.Pred = fmt.Sprintf("leaf%d", k)
			k++
		} else if named%3 == 0 {
			n.Pred = "inner"
		}
	})
}

func gather(n int, leaves [][]int, preds []string) ([][]string, int) {
	got := make([][]string, n)
	extra := 0
	for i := range got {
		got[i] = []string{}
	}
	for k, cs := range leaves {
		for _, c := range cs {
			if c < 0 || c >= n {
				extra++
				continue
			}
			got[c] = append(got[c], preds[k])
		}
	}
	return got, extra
}

func extraVotes(b *vt.RecBox, n int) int {
	e := 0
	for c, v := range b.Votes {
		if c < 0 || c >= n {
			e += len(v)
		}
	}
	return e
}

// observe runs every traversal and emits one trace
func observe(r *rand.Rand, id string, tree *CF.Tree, fm *CF.FeatureMatrix, tab *vt.Table) {
	n := tab.N()
	ev := []vt.M{{"op": "start"}}
	tj := vt.TreeJSON(tree.Root)
	add := func(e vt.M, f func(e vt.M)) {
		if p := vt.Catch(func() { f(e) }); p != "" {
			e = vt.M{"op": "panic", "msg": p, "in": e["op"]}
		}
		ev = append(ev, e)
	}
	ops := []func(){
		func() {
			add(vt.M{"op": "leaves"}, func(e vt.M) {
				ls := tree.GetLeaves(fm, nil)
				cs, ps := [][]int{}, []string{}
				for _, l := range ls {
					cs = append(cs, l.Cases)
					ps = append(ps, l.Pred)
				}
				e["got"], e["extra"] = gather(n, cs, ps)
			})
		},
		func() {
			add(vt.M{"op": "partition"}, func(e vt.M) {
				cs, ps := tree.Partition(fm)
				e["got"], e["extra"] = gather(n, *cs, *ps)
			})
		},
		func() {
			add(vt.M{"op": "vote"}, func(e vt.M) {
				b := vt.NewRecBox()
				tree.Vote(fm, b)
				e["got"], e["extra"] = b.Preds(n), extraVotes(b, n)
			})
		},
		func() {
			k := r.Intn(2 * n)
			cases := make([]int, k)
			for i := range cases {
				cases[i] = r.Intn(n)
			}
			if r.Intn(3) == 0 {
				cases = r.Perm(n)
			}
			add(vt.M{"op": "votecases", "cases": vt.One(cases)}, func(e vt.M) {
				b := vt.NewRecBox()
				tree.VoteCases(fm, b, cases)
				e["got"], e["extra"] = b.Preds(n), extraVotes(b, n)
			})
		},
	}
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for _, o := range ops {
		o()
	}
	vt.Put(vt.M{"id": id, "tree": tj, "data": tab.JSON(), "ev": ev})
}

// the same logical table with cases, features and category codes in another order
func shuffled(r *rand.Rand, t *vt.Table) *vt.Table {
	n := t.N()
	p := r.Perm(n)
	u := &vt.Table{}
	for _, c := range t.Cols {
		d := vt.Col{Name: c.Name, Cat: c.Cat, Miss: make([]bool, n)}
		if c.Cat {
			d.Lab = make([]string, n)
			seen := map[string]bool{}
			for i := range c.Lab {
				d.Lab[p[i]] = c.Lab[i]
				if !seen[c.Lab[i]] {
					seen[c.Lab[i]] = true
					d.Pre = append(d.Pre, c.Lab[i])
				}
			}
			if r.Intn(2) == 0 {
				d.Pre = append(d.Pre, "never-seen")
			}
			r.Shuffle(len(d.Pre), func(i, j int) { d.Pre[i], d.Pre[j] = d.Pre[j], d.Pre[i] })
		} else {
			d.Num = make([]float64, n)
			for i := range c.Num {
				d.Num[p[i]] = c.Num[i]
			}
		}
		for i := range c.Miss {
			d.Miss[p[i]] = c.Miss[i]
		}
		u.Cols = append(u.Cols, d)
	}
	if r.Intn(2) == 0 {
		u.Cols = append(u.Cols, vt.NumCol(r, "N:extra", n, 3, 0.1))
	}
	r.Shuffle(len(u.Cols), func(i, j int) { u.Cols[i], u.Cols[j] = u.Cols[j], u.Cols[i] })
	return u
}

func addNodes(t *CF.Tree, path string, n *CF.Node, r *rand.Rand) {
	if n == nil {
		return
	}
	t.AddNode(path, n.Pred, n.Splitter)
	addNodes(t, path+"L", n.Left, r)
	addNodes(t, path+"R", n.Right, r)
	addNodes(t, path+"M", n.Missing, r)
}

func main() {
	r := vt.Start()
	k := 0
	// 1. every instance enumerated by the specification
	f, err := os.Open(*vt.Gen)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	var tab *vt.Table
	for sc.Scan() {
		var x struct {
			Data []jcol
			Tree []jnode
		}
		if err := json.Unmarshal(sc.Bytes(), &x); err != nil {
			panic(err)
		}
		if x.Data != nil {
			tab = &vt.Table{}
			for _, c := range x.Data {
				d := vt.Col{Name: c.Name, Cat: c.Kind == "cat", Miss: c.Miss}
				for _, v := range c.Val {
					if d.Cat {
						d.Lab = append(d.Lab, v)
					} else {
						d.Num = append(d.Num, ratOf(v))
					}
				}
				tab.Cols = append(tab.Cols, d)
			}
			continue
		}
		k++
		t := &CF.Tree{Root: build(x.Tree, 1), Weight: -1}
		observe(r, vt.ID("gen", k), t, tab.FM(), tab)
	}
	// 2. random trees over random tables, and the same table reordered and recoded
	for i := 0; i < vt.N(150, 1500); i++ {
		n := 1 + r.Intn(14)
		t := vt.RandTable(r, n, 1+r.Intn(3), 1+r.Intn(3), 1+r.Intn(40), r.Float64()*0.4)
		if r.Intn(3) == 0 {
			for j := range t.Cols {
				vt.Near(r, &t.Cols[j])
			}
		}
		root := vt.RandTree(r, t, 1+r.Intn(5))
		nameLeaves(root)
		tree := &CF.Tree{Root: root, Weight: -1}
		if i%2 == 0 {
			tree = &CF.Tree{Weight: -1}
			addNodes(tree, "", root, r)
		}
		observe(r, vt.ID("rand", i), tree, t.FM(), t)
		u := shuffled(r, t)
		observe(r, vt.ID("recode", i), tree, u.FM(), u)
		if len(u.Cols) > 1 { // a table without some of the features
			u.Cols = u.Cols[1+r.Intn(len(u.Cols)-1):]
			observe(r, vt.ID("lacking", i), tree, u.FM(), u)
		}
	}
	// 3. grown trees: with codes on the training data, without on recoded data, and saved
	for i := 0; i < vt.N(60, 600); i++ {
		n := 6 + r.Intn(20)
		t := vt.RandTable(r, n, 1+r.Intn(3), 1+r.Intn(3), 1+r.Intn(36), r.Float64()*0.3)
		tg := vt.NumCol(r, "N:target", n, 8, 0)
		if i%2 == 0 {
			tg = vt.CatCol(r, "C:target", n, 3, 0)
		}
		t.Cols = append(t.Cols, tg)
		fm := t.FM()
		ti := len(t.Cols) - 1
		cands := []int{}
		for j := 0; j < ti; j++ {
			cands = append(cands, j)
		}
		tree := CF.NewTree()
		tree.Target = tg.Name
		cases := CF.SampleWithReplacment(n, n)
		target := fm.Data[ti].(CF.Target)
		allocs := CF.NewBestSplitAllocs(n, target)
		if p := vt.Catch(func() {
			tree.Grow(fm, target, cases, cands, nil, len(cands), 1, 0, i%3 == 0, false, false, false, false, nil, nil, allocs)
		}); p != "" {
			vt.Put(vt.M{"id": vt.ID("grow-panic", i), "tree": []vt.M{}, "data": t.JSON(), "ev": []vt.M{{"op": "panic", "msg": p}}})
			continue
		}
		nameLeaves(tree.Root)
		observe(r, vt.ID("grown", i), tree, fm, t)
		buf := new(bytes.Buffer)
		CF.NewForestWriter(buf).WriteTree(tree, 0)
		tree.StripCodes()
		observe(r, vt.ID("stripped", i), tree, t.FM(), t)
		u := shuffled(r, t)
		observe(r, vt.ID("regrown", i), tree, u.FM(), u)
	}
	vt.Done()
}
