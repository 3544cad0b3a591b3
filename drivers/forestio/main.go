// forestio records what the forest writer writes and what the readers deliver.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

// ---- an independent reading of the format: key=value pairs separated by commas outside quotes

func fields(line string) (map[string]string, error) {
	m := map[string]string{}
	var cur strings.Builder
	parts := []string{}
	in := false
	for _, c := range line {
		if c == '"' {
			in = !in
		}
		if c == ',' && !in {
			parts = append(parts, cur.String())
			cur.Reset()
			continue
		}
		cur.WriteRune(c)
	}
	parts = append(parts, cur.String())
	for _, p := range parts {
		kv := strings.SplitN(p, "=", 2)
		if len(kv) != 2 || in {
			return nil, fmt.Errorf("not key=value: %q", line)
		}
		m[kv[0]] = strings.TrimSuffix(strings.TrimPrefix(kv[1], `"`), `"`)
	}
	return m, nil
}

func ratText(s string) string {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return "unparsable " + s
	}
	return vt.Num(v)
}

func line(k, target, num string, node vt.M) vt.M {
	m := vt.M{"k": k, "target": target, "num": num, "node": []string{}}
	if node != nil {
		m["node"] = node
	}
	return m
}

func lineJSON(l string) vt.M {
	m, err := fields(l)
	if err != nil {
		return line("bad", "", "", nil)
	}
	or := func(k, d string) string {
		if v, ok := m[k]; ok {
			return ratText(v)
		}
		return d
	}
	switch {
	case strings.HasPrefix(l, "FOREST="):
		return line("forest", m["TARGET"], or("INTERCEPT", "0"), nil)
	case strings.HasPrefix(l, "TREE="):
		return line("tree", m["TARGET"], or("WEIGHT", "none"), nil)
	case strings.HasPrefix(l, "NODE="):
		n := vt.NodeJSON(m["NODE"], m["PRED"], nil)
		if f, ok := m["SPLITTER"]; ok {
			n["feat"] = f
			if m["SPLITTERTYPE"] == "NUMERICAL" {
				n["kind"], n["value"] = "num", ratText(m["LVALUES"])
				if m["LVALUES"] != m["RVALUES"] {
					n["kind"] = "bad values"
				}
			} else {
				n["kind"] = "cat"
				l := []string{}
				if m["LVALUES"] != "" {
					l = strings.Split(m["LVALUES"], ":")
				}
				sort.Strings(l)
				n["left"] = l
			}
		}
		return line("node", "", "", n)
	}
	return line("bad", "", "", nil)
}

// ---- reading with the code under test

func errOf(err error) string {
	switch err {
	case nil:
		return ""
	case io.EOF:
		return "eof"
	}
	return "error"
}

func readTrees(text string, max int) []vt.M {
	fr := CF.NewForestReader(strings.NewReader(text))
	ev := []vt.M{}
	last := ""
	for i := 0; i < max && last == ""; i++ {
		e := vt.M{"op": "readtree", "hdr": []vt.M{}, "tree": []vt.M{}}
		if p := vt.Catch(func() {
			t, f, err := fr.ReadTree()
			last = errOf(err)
			e["err"] = last
			if f != nil {
				e["hdr"] = []vt.M{{"target": f.Target, "num": vt.Num(f.Intercept)}}
			}
			if t != nil {
				e["tree"] = []vt.M{vt.TreeRec(t)}
			}
		}); p != "" {
			e = vt.M{"op": "panic", "msg": p}
			last = "panic"
		}
		ev = append(ev, e)
	}
	ev = append(ev, vt.M{"op": "stop"})
	if last == "eof" {
		t, f, err := fr.ReadTree()
		n := 0
		if t != nil || f != nil {
			n = 1
		}
		ev = append(ev, vt.M{"op": "again", "n": n, "err": errOf(err)})
	}
	return ev
}

func readForests(text string, max int) []vt.M {
	fr := CF.NewForestReader(strings.NewReader(text))
	ev := []vt.M{}
	last := ""
	for i := 0; i < max && last == ""; i++ {
		e := vt.M{"op": "readforest", "forest": []vt.M{}}
		if p := vt.Catch(func() {
			f, err := fr.ReadForest()
			last = errOf(err)
			e["err"] = last
			if f != nil {
				e["forest"] = []vt.M{vt.ForestRec(f)}
			}
		}); p != "" {
			e = vt.M{"op": "panic", "msg": p}
			last = "panic"
		}
		ev = append(ev, e)
	}
	ev = append(ev, vt.M{"op": "stop"})
	if last == "eof" {
		f, err := fr.ReadForest()
		n := 0
		if f != nil {
			n = 1
		}
		ev = append(ev, vt.M{"op": "again", "n": n, "err": errOf(err)})
	}
	return ev
}

// ---- C08: files from the specification's alphabet

var badHeads = []string{`TREE=0,TARGET="t`, `TREE=0,TARGET="t",WEIGHT=heavy`, `FOREST=0,TARGET="t",INTERCEPT=low`}
var badBody = []string{`NODE=*L,SPLITTER=N:x,SPLITTERTYPE=NUMERICAL,LVALUES=x,RVALUES=x`, `NODE=*LLR,PRED=1`, `nonsense`, `NODE=*R,PRED="a`, `=1`}

func render(r *rand.Rand, items []string) (string, []vt.M) {
	text, lines := "", []vt.M{}
	put := func(l string) {
		text += l + "\n"
		lines = append(lines, lineJSON(l))
		if r.Intn(12) == 0 {
			text += "\n" // a blank line says nothing
		}
	}
	intree := false
	for i, it := range items {
		w := []string{"", ",WEIGHT=0.5", ",WEIGHT=0", ",WEIGHT=2.25", ",WEIGHT=+Inf"}[r.Intn(5)]
		switch it {
		case "H":
			put(fmt.Sprintf(`FOREST=%d,TARGET="t%d"%s`, i, r.Intn(3), []string{"", ",INTERCEPT=1.5", ",INTERCEPT=-2"}[r.Intn(3)]))
			intree = false
		case "T":
			put(fmt.Sprintf(`TREE=%d,TARGET="t%d"%s`, i, r.Intn(3), w))
			put(fmt.Sprintf(`NODE=*,PRED=p%d`, i))
			intree = true
		case "S":
			put(fmt.Sprintf(`TREE=%d,TARGET="t%d"%s`, i, r.Intn(3), w))
			if r.Intn(2) == 0 {
				put(fmt.Sprintf(`NODE=*,SPLITTER=N:x,SPLITTERTYPE=NUMERICAL,LVALUES=%d.5,RVALUES=%d.5`, i, i))
			} else {
				left := fmt.Sprintf("a:b%d", i)
				if r.Intn(60) == 0 {
					// lines longer than any buffer
					for k := 0; len(left) < 4096<<uint(r.Intn(2)*4); k++ {
						left += fmt.Sprintf(":%d%s", k, strings.Repeat("long ", 10+r.Intn(400)))
					}
				}
				put(fmt.Sprintf(`NODE=*,SPLITTER=C:k,SPLITTERTYPE=CATEGORICAL,LVALUES="%s"`, left))
			}
			put(`NODE=*L,PRED=l`)
			put(`NODE=*R,PRED=r`)
			if r.Intn(2) == 0 {
				put(`NODE=*M,PRED=m`)
			}
			intree = true
		case "B":
			b, k := `NODE=*,PRED=1`, "bad" // a node outside of a tree
			if intree {
				b = badBody[r.Intn(len(badBody))]
			}
			if r.Intn(2) == 0 {
				b, k = badHeads[r.Intn(len(badHeads))], "badtree"
				if b[0] == 'F' {
					k = "badforest"
				}
			}
			text += b + "\n"
			lines = append(lines, line(k, "", "", nil))
			intree = false
		}
	}
	return text, lines
}

func filesFromSpec(r *rand.Rand, round int) {
	f, err := os.Open(*vt.Gen)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	i := 0
	for sc.Scan() {
		var x struct{ Items []string }
		if err := json.Unmarshal(sc.Bytes(), &x); err != nil {
			panic(err)
		}
		if len(x.Items) == 0 || x.Items[0] == "B" {
			continue
		}
		text, lines := render(r, x.Items)
		if r.Intn(3) == 0 {
			text = strings.TrimRight(text, "\n")
		}
		if r.Intn(4) == 0 {
			text = strings.Replace(text, "\n", "\r\n", -1)
		}
		i++
		vt.Put(vt.M{"id": vt.ID(fmt.Sprint("tree", round), i), "text": text, "lines": lines, "ev": readTrees(text, len(lines)+3)})
		vt.Put(vt.M{"id": vt.ID(fmt.Sprint("forest", round), i), "text": text, "lines": lines, "ev": readForests(text, len(lines)+3)})
	}
}

// ---- C07: forests through the writer

var names = []string{"x", "long name", "a=b", "p,q", "GEXP:tp53:chr1", "semi;colon", "prä", "it's", "#9", "a,b=c,d", "-1", "x y, z", "NODE", "TREE=1", "*L", "end ", "tab\t", " lead", ", ", "="}
var labels = []string{"a", "b", "red dwarf", "a=b", "p,q", "10", "-1.5e3", "é", "#", "don't", "A", "T=x,", "NA?", "F", " a", "b ", "\tc", "=", ","}

func special(r *rand.Rand, n int) *vt.Table {
	t := vt.RandTable(r, n, 1+r.Intn(3), 1+r.Intn(3), 1+r.Intn(8), 0.2)
	used := map[string]bool{}
	for i := range t.Cols {
		c := &t.Cols[i]
		for {
			c.Name = c.Name[:2] + names[r.Intn(len(names))] + []string{"", " 2", "=3"}[r.Intn(3)]
			if !used[c.Name] {
				used[c.Name] = true
				break
			}
		}
		if c.Cat {
			p := r.Perm(len(labels))
			tr := map[string]string{}
			for k, l := range vt.Labels(12) {
				tr[l] = labels[p[k]]
			}
			for k := range c.Lab {
				c.Lab[k] = tr[c.Lab[k]]
			}
			c.Pre = nil
		}
	}
	return t
}

func randForest(r *rand.Rand, t *vt.Table) *CF.Forest {
	f := &CF.Forest{Target: "C:" + names[r.Intn(len(names))]}
	if r.Intn(2) == 0 {
		f.Intercept = []float64{1, -0.1, 1e-300, 12345.678, r.NormFloat64(), -math.MaxFloat64}[r.Intn(6)]
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		tree := &CF.Tree{Target: f.Target, Weight: -1, Root: vt.RandTree(r, t, r.Intn(5))}
		if r.Intn(2) == 0 {
			tree.Weight = []float64{0, 1, 0.1, 1e-9, r.ExpFloat64(), math.Inf(1)}[r.Intn(6)]
		}
		tree.Root.Climb(func(n *CF.Node) {
			if n.Splitter != nil && n.Splitter.Numerical && r.Intn(6) == 0 {
				n.Splitter.Value = []float64{math.Copysign(0, -1), 5e-324, 0.1 + 0.2, 1e21, -1e-7, math.Inf(1), math.Inf(-1), 123456789.12345678}[r.Intn(8)]
			}
			if n.Splitter == nil || r.Intn(5) == 0 {
				n.Pred = labels[r.Intn(len(labels))]
				if r.Intn(3) == 0 {
					n.Pred = fmt.Sprint(r.NormFloat64())
				}
			}
		})
		f.Trees = append(f.Trees, tree)
	}
	return f
}

func votes(f *CF.Forest, fm *CF.FeatureMatrix, n int) [][]vt.M {
	b := vt.NewRecBox()
	for _, t := range f.Trees {
		t.Vote(fm, b)
	}
	r := make([][]vt.M, n)
	for i := range r {
		r[i] = append([]vt.M{}, b.Votes[i]...)
	}
	return r
}

func roundTrip(r *rand.Rand, id string, f *CF.Forest, tabs ...*vt.Table) {
	ev := []vt.M{}
	want := vt.ForestRec(f)
	var buf bytes.Buffer
	if p := vt.Catch(func() {
		w := CF.NewForestWriter(&buf)
		if r.Intn(3) == 0 { // the way growforest writes: header if any, then tree by tree
			if f.Intercept != 0 {
				w.WriteForestHeader(0, f.Target, f.Intercept)
			}
			for i, t := range f.Trees {
				w.WriteTree(t, i)
			}
		} else {
			w.WriteForest(f)
		}
	}); p != "" {
		ev = append(ev, vt.M{"op": "panic", "msg": p})
	}
	text := buf.String()
	lines := []vt.M{}
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		lines = append(lines, lineJSON(l))
	}
	ev = append(ev, vt.M{"op": "wrote", "lines": lines})
	var g *CF.Forest
	e := vt.M{"op": "read", "forest": []vt.M{}, "err": ""}
	if p := vt.Catch(func() {
		var err error
		g, err = CF.NewForestReader(strings.NewReader(text)).ReadForest()
		e["err"] = errOf(err)
		if g != nil {
			e["forest"] = []vt.M{vt.ForestRec(g)}
		}
	}); p != "" {
		e = vt.M{"op": "panic", "msg": p}
	}
	ev = append(ev, e)
	for _, t := range tabs {
		e := vt.M{"op": "votes"}
		if p := vt.Catch(func() {
			e["before"] = votes(f, t.FM(), t.N())
			e["after"] = votes(g, t.FM(), t.N())
		}); p != "" {
			e = vt.M{"op": "panic", "msg": p}
		}
		ev = append(ev, e)
	}
	vt.Put(vt.M{"id": id, "text": text, "lines": []vt.M{}, "forest": want, "ev": ev})
}

func main() {
	r := vt.Start()
	if *vt.Gen != "" {
		for k := vt.N(1, 3); k > 0; k-- {
			filesFromSpec(r, k)
		}
		vt.Done()
		return
	}
	for i := 0; i < vt.N(300, 4000); i++ {
		t := special(r, 2+r.Intn(10))
		roundTrip(r, vt.ID("made", i), randForest(r, t), t)
	}
	// grown forests, with and without missing branches, voting on data they did not see
	for i := 0; i < vt.N(60, 600); i++ {
		n := 8 + r.Intn(20)
		t := vt.RandTable(r, n, 1+r.Intn(3), 1+r.Intn(3), 1+r.Intn(36), 0.2)
		tg := vt.NumCol(r, "N:target", n, 8, 0)
		if i%2 == 0 {
			tg = vt.CatCol(r, "C:target", n, 3, 0)
		}
		t.Cols = append(t.Cols, tg)
		fm := t.FM()
		ti := len(t.Cols) - 1
		cands := []int{}
		for j := 0; j < ti; j++ {
			cands = append(cands, j)
		}
		var f *CF.Forest
		if p := vt.Catch(func() {
			f = CF.GrowRandomForest(fm, fm.Data[ti].(CF.Target), cands, n, 1+r.Intn(len(cands)), 1+r.Intn(4), 1, 0, i%3 == 0, false, false, false, nil)
		}); p != "" {
			vt.Put(vt.M{"id": vt.ID("grow", i), "lines": []vt.M{}, "ev": []vt.M{{"op": "panic", "msg": p}}})
			continue
		}
		for _, tr := range f.Trees {
			tr.Target = f.Target
			tr.StripCodes()
		}
		u := &vt.Table{}
		for _, c := range t.Cols {
			if c.Cat {
				u.Cols = append(u.Cols, vt.CatCol(r, c.Name, 6, 40, 0.2))
			} else {
				u.Cols = append(u.Cols, vt.NumCol(r, c.Name, 6, 6, 0.2))
			}
		}
		roundTrip(r, vt.ID("grown", i), f, t, u)
	}
	vt.Done()
}
