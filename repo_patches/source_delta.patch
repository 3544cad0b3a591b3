From 0a22fa939fa57708b60464a17d7ce8e35ecda467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 01/79] fix: RunningMean is not poisoned with NaN by a first
 value of weight zero

---
 utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 14a59ff..a2b5d31 100644
--- a/utils.go
+++ b/utils.go
@@ -31,7 +31,8 @@ func (rm *RunningMean) Add(val float64) {
 
 //WeightedAdd add's the specified value to the running mean in a thread safe way.
 func (rm *RunningMean) WeightedAdd(val float64, weight float64) {
-	if !math.IsNaN(val) && !math.IsNaN(weight) {
+	//a value with no weight leaves the mean as it is, even if it is the first one.
+	if !math.IsNaN(val) && !math.IsNaN(weight) && weight != 0 {
 		rm.mutex.Lock()
 		rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)
 		rm.Count += weight
-- 
2.43.0


From 7c8895f67f10c901b1f0ee08e8631a55fbcfbb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 02/79] fix: the squared error of a NumBallotBox ignores cases
 that got no votes

---
 numballotbox.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/numballotbox.go b/numballotbox.go
index c0b5583..ecf3cd2 100644
--- a/numballotbox.go
+++ b/numballotbox.go
@@ -63,8 +63,8 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 	d := 0.0
 	c := 0
 	for i := 0; i < feature.Length(); i++ {
-		predicted := bb.TallyNum(i)
-		if !feature.IsMissing(i) && !math.IsNaN(predicted) {
+		predicted, count := bb.box[i].Read()
+		if !feature.IsMissing(i) && count > 0 && !math.IsNaN(predicted) {
 			value := feature.(NumFeature).Get(i)
 
 			d = float64(value) - predicted
@@ -72,8 +72,9 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 			c += 1
 		}
 	}
-	if c == 0.0 {
-		log.Fatal("TallyError with 0 count!")
+	if c == 0 {
+		log.Print("TallyError with 0 count!")
+		return math.NaN()
 	}
 	e = e / float64(c)
 
-- 
2.43.0


From 21093f16a9f9fc6e20fee5c5b944ebbc65e4959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 03/79] fix: the balanced error of a CatBallotBox is not NaN
 when a category has no cases

---
 catballotbox.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index ad15fa1..fb2b663 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -107,11 +107,16 @@ func (bb *CatBallotBox) TallyError(feature Feature) (e float64) {
 		}
 	}
 
+	//categories that no case has say nothing about the error
+	present := 0
 	for i, ncorrect := range correct {
-		e += float64(ncorrect) / float64(total[i])
+		if total[i] > 0 {
+			e += float64(ncorrect) / float64(total[i])
+			present++
+		}
 	}
 
-	e /= float64(ncats)
+	e /= float64(present)
 	e = 1.0 - e
 
 	return
-- 
2.43.0


From 1d8d78332310035c6f768f52b62ef87a8b6122cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 04/79] fix: CatBallotBox guards its category map against
 concurrent votes

---
 catballotbox.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index fb2b663..480a74d 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -21,15 +21,16 @@ func NewCatBallot() (cb *CatBallot) {
 //CatBallotBox keeps track of votes by trees in a thread safe manner.
 type CatBallotBox struct {
 	*CatMap
-	Box []*CatBallot
+	Box      []*CatBallot
+	mapMutex sync.Mutex //guards CatMap
 }
 
 //NewCatBallotBox builds a new ballot box for the number of cases specified by "size".
 func NewCatBallotBox(size int) *CatBallotBox {
 	bb := CatBallotBox{
-		&CatMap{make(map[string]int),
+		CatMap: &CatMap{make(map[string]int),
 			make([]string, 0, 0)},
-		make([]*CatBallot, 0, size)}
+		Box: make([]*CatBallot, 0, size)}
 	for i := 0; i < size; i++ {
 		bb.Box = append(bb.Box, NewCatBallot())
 	}
@@ -39,7 +40,9 @@ func NewCatBallotBox(size int) *CatBallotBox {
 //Vote registers a vote that case "casei" should be predicted to be the
 //category "pred".
 func (bb *CatBallotBox) Vote(casei int, pred string, weight float64) {
+	bb.mapMutex.Lock()
 	predn := bb.CatToNum(pred)
+	bb.mapMutex.Unlock()
 	bb.Box[casei].Mutex.Lock()
 	if _, ok := bb.Box[casei].Map[predn]; !ok {
 		bb.Box[casei].Map[predn] = 0
@@ -65,7 +68,9 @@ func (bb *CatBallotBox) Tally(i int) (predicted string) {
 	}
 	bb.Box[i].Mutex.Unlock()
 	if votes > 0 {
+		bb.mapMutex.Lock()
 		predicted = bb.Back[predictedn]
+		bb.mapMutex.Unlock()
 	} else {
 		predicted = "NA"
 	}
-- 
2.43.0


From ac47774e69962e04f855a93be8a15bacb93075f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 05/79] fix: the missing branch of a node is written instead of
 its right branch

---
 forestwriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestwriter.go b/forestwriter.go
index 8009459..59a8ebd 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -68,7 +68,7 @@ func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
 		fw.WriteNodeAndChildren(n.Right, path+"R")
 	}
 	if n.Splitter != nil && n.Missing != nil {
-		fw.WriteNodeAndChildren(n.Right, path+"M")
+		fw.WriteNodeAndChildren(n.Missing, path+"M")
 	}
 
 }
-- 
2.43.0


From 4a5fe50320824f0d2232cabe86ff96fe0f948536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 06/79] fix: saved categorical splits list only left categories
 in a fixed order

---
 forestwriter.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/forestwriter.go b/forestwriter.go
index 59a8ebd..061074f 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -3,6 +3,7 @@ package CloudForest
 import (
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 )
 
@@ -98,8 +99,12 @@ func (fw *ForestWriter) WriteNode(n *Node, path string) {
 //DescribeMap serializes the "left" map of a categorical splitter.
 func (fw *ForestWriter) DescribeMap(input map[string]bool) string {
 	keys := make([]string, 0)
-	for k := range input {
-		keys = append(keys, k)
+	for k, left := range input {
+		if left {
+			keys = append(keys, k)
+		}
 	}
+	//map order differs from run to run
+	sort.Strings(keys)
 	return "\"" + strings.Join(keys, ":") + "\""
 }
-- 
2.43.0


From f6ea8175e8988114af5e93f53e4746aa3731fdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 07/79] fix: an empty set of left categories does not read back
 as the empty category

---
 forestreader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forestreader.go b/forestreader.go
index a28025a..7fab039 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -135,8 +135,10 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 					splitter.Numerical = false
 
 					splitter.Left = make(map[string]bool)
-					for _, f := range strings.Split(parsed["LVALUES"], ":") {
-						splitter.Left[f] = true
+					if parsed["LVALUES"] != "" {
+						for _, f := range strings.Split(parsed["LVALUES"], ":") {
+							splitter.Left[f] = true
+						}
 					}
 
 				case "NUMERICAL":
-- 
2.43.0


From 6eb37c3d92e4c8733768d95f32a9dd391c1fa1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 08/79] fix: the forest reader does not lose a last line
 without a new line

---
 forestreader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index 7fab039..29a1dd6 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -83,7 +83,8 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 		}
 
 		line, err = fr.br.ReadString('\n')
-		if err != nil {
+		//the last line may not end in a new line
+		if err != nil && (err != io.EOF || line == "") {
 			return
 		}
 		parsed := fr.ParseRfAcePredictorLine(line)
-- 
2.43.0


From 0607591ef89f39fdf0e214b7f9dba5eb0fbd665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 09/79] fix: a forest header followed by another one is not
 lost

---
 forestreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index 29a1dd6..1744a01 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -78,7 +78,7 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 	for {
 		peek, err = fr.br.Peek(1)
 		//If their is no next line or it starts a new Tree or Forest return
-		if err != nil || (intree && (peek[0] == 'T' || peek[0] == 'F')) {
+		if err != nil || (intree && (peek[0] == 'T' || peek[0] == 'F')) || (forest != nil && peek[0] == 'F') {
 			return
 		}
 
-- 
2.43.0


From a8ae576c022febd6771e7884af65edd418b763a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 10/79] fix: names and categories holding = , or blanks survive
 writing and reading a forest

---
 forestreader.go | 70 +++++++++++++++++++++++++++----------------------
 forestwriter.go | 12 +++++++--
 2 files changed, 48 insertions(+), 34 deletions(-)

diff --git a/forestreader.go b/forestreader.go
index 1744a01..54afcfe 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -164,41 +164,47 @@ ParseRfAcePredictorLine parses a single line of an rf-ace sf "stochastic forest"
 and returns a map[string]string of the key value pairs.
 */
 func (fr *ForestReader) ParseRfAcePredictorLine(line string) map[string]string {
-	clauses := make([]string, 0)
-	insidequotes := make([]string, 0)
-	terms := strings.Split(strings.TrimSpace(line), ",")
+	parsed, err := parsePredictorLine(line)
+	if err != nil {
+		log.Print(err)
+	}
+	return parsed
+}
+
+//parsePredictorLine parses a line of comma separated key=value clauses. A value may
+//be quoted, in which case it can hold any character but a quote.
+func parsePredictorLine(line string) (parsed map[string]string, err error) {
+	parsed = make(map[string]string, 0)
+	terms := make([]string, 0)
+	inquotes := false
+	start := 0
+	for i := 0; i < len(line); i++ {
+		switch {
+		case line[i] == '"':
+			inquotes = !inquotes
+		case line[i] == ',' && !inquotes:
+			terms = append(terms, line[start:i])
+			start = i + 1
+		}
+	}
+	terms = append(terms, line[start:])
+	if inquotes {
+		return parsed, fmt.Errorf("Unclosed quote in .sf line: %v", line)
+	}
+	last := ""
 	for _, term := range terms {
 		term = strings.TrimSpace(term)
-		quotes := strings.Count(term, "\"")
-		//if quotes have been opend join terms
-		if quotes == 1 || len(insidequotes) > 0 {
-			insidequotes = append(insidequotes, term)
-		} else {
+		eq := strings.Index(term, "=")
+		switch {
+		case eq > 0:
+			last = strings.TrimSpace(term[:eq])
+			parsed[last] = strings.Trim(strings.TrimSpace(term[eq+1:]), "\"")
+		case eq < 0 && last != "":
 			//If the term doesn't have an = in it join it to the last term
-			if strings.Count(term, "=") == 0 {
-				clauses[len(clauses)-1] += "," + term
-			} else {
-				clauses = append(clauses, term)
-			}
-		}
-		//quotes were closed
-		if quotes == 1 && len(insidequotes) > 1 {
-			clauses = append(clauses, strings.Join(insidequotes, ","))
-			insidequotes = make([]string, 0)
+			parsed[last] += "," + term
+		default:
+			return parsed, fmt.Errorf("Poorly formed .sf line: %v", line)
 		}
-
 	}
-	parsed := make(map[string]string, 0)
-	for _, clause := range clauses {
-		vs := strings.Split(clause, "=")
-		for i, v := range vs {
-			vs[i] = strings.Trim(strings.TrimSpace(v), "\"")
-		}
-		if len(vs) != 2 {
-			fmt.Println("Parser Choked on : \"", line, "\"")
-		}
-		parsed[vs[0]] = vs[1]
-	}
-
-	return parsed
+	return
 }
diff --git a/forestwriter.go b/forestwriter.go
index 061074f..95f36c6 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -80,11 +80,11 @@ func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
 func (fw *ForestWriter) WriteNode(n *Node, path string) {
 	node := fmt.Sprintf("NODE=%v", path)
 	if n.Pred != "" {
-		node += fmt.Sprintf(",PRED=%v", n.Pred)
+		node += fmt.Sprintf(",PRED=%v", quoteTerm(n.Pred))
 	}
 
 	if n.Splitter != nil {
-		node += fmt.Sprintf(",SPLITTER=%v", n.Splitter.Feature)
+		node += fmt.Sprintf(",SPLITTER=%v", quoteTerm(n.Splitter.Feature))
 		switch n.Splitter.Numerical {
 		case true:
 			node += fmt.Sprintf(",SPLITTERTYPE=NUMERICAL,LVALUES=%v,RVALUES=%v", n.Splitter.Value, n.Splitter.Value)
@@ -96,6 +96,14 @@ func (fw *ForestWriter) WriteNode(n *Node, path string) {
 	fmt.Fprintln(fw.w, node)
 }
 
+//quoteTerm quotes a value that the reader would otherwise take apart.
+func quoteTerm(value string) string {
+	if strings.ContainsAny(value, ",=") || strings.TrimSpace(value) != value {
+		return "\"" + value + "\""
+	}
+	return value
+}
+
 //DescribeMap serializes the "left" map of a categorical splitter.
 func (fw *ForestWriter) DescribeMap(input map[string]bool) string {
 	keys := make([]string, 0)
-- 
2.43.0


From 0708e1982d462542f0fd88dcac91e13291898c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 11/79] fix: the forest reader reports malformed lines instead
 of dropping or altering trees

---
 forestreader.go | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/forestreader.go b/forestreader.go
index 54afcfe..9f9686c 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -62,7 +62,7 @@ func (fr *ForestReader) ReadForest() (forest *Forest, err error) {
 			return forest, nil
 		}
 		if e != nil {
-			return
+			return forest, e
 		}
 
 	}
@@ -87,7 +87,13 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 		if err != nil && (err != io.EOF || line == "") {
 			return
 		}
-		parsed := fr.ParseRfAcePredictorLine(line)
+		if strings.TrimSpace(line) == "" {
+			continue
+		}
+		parsed, e := parsePredictorLine(line)
+		if e != nil {
+			return tree, forest, e
+		}
 		switch {
 		case strings.HasPrefix(line, "FOREST"):
 			forest = new(Forest)
@@ -96,7 +102,7 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 			if ok {
 				intercept, err := strconv.ParseFloat(i, 64)
 				if err != nil {
-					log.Print("Error parsing forest intercept value ", err)
+					return tree, forest, fmt.Errorf("Error parsing forest intercept value: %v", err)
 				}
 				forest.Intercept = intercept
 			}
@@ -109,7 +115,7 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 			if ok {
 				weight, err := strconv.ParseFloat(weights, 64)
 				if err != nil {
-					log.Print("Error parsing weight value ", err)
+					return tree, forest, fmt.Errorf("Error parsing weight value: %v", err)
 				}
 				tree.Weight = weight
 			} else {
@@ -146,19 +152,48 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 					splitter.Numerical = true
 					lvalue, err := strconv.ParseFloat(parsed["LVALUES"], 64)
 					if err != nil {
-						log.Print("Error parsing lvalues value ", err)
+						return tree, forest, fmt.Errorf("Error parsing lvalues value: %v", err)
 					}
 					splitter.Value = float64(lvalue)
 				}
 			}
 
+			if !hasParent(tree, parsed["NODE"]) {
+				return tree, forest, errors.New("Poorly formed .sf file. Node without a parent: " + line)
+			}
 			tree.AddNode(parsed["NODE"], pred, splitter)
 
+		default:
+			return tree, forest, errors.New("Poorly formed .sf file. Unknown line: " + line)
+
 		}
 	}
 
 }
 
+//hasParent tells whether the node at path can be added to the tree.
+func hasParent(tree *Tree, path string) bool {
+	path = strings.TrimPrefix(path, "*")
+	if path == "" {
+		return true
+	}
+	loc := tree.Root
+	for _, branch := range path[:len(path)-1] {
+		if loc == nil {
+			return false
+		}
+		switch branch {
+		case 'L':
+			loc = loc.Left
+		case 'R':
+			loc = loc.Right
+		case 'M':
+			loc = loc.Missing
+		}
+	}
+	return loc != nil
+}
+
 /*
 ParseRfAcePredictorLine parses a single line of an rf-ace sf "stochastic forest"
 and returns a map[string]string of the key value pairs.
-- 
2.43.0


From ac505abd0b8bd186955340d89339895f1df98221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 12/79] fix: the span of a numerical feature is measured from
 its smallest value

---
 densenumfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densenumfeature.go b/densenumfeature.go
index 7294078..c7642f7 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -560,6 +560,7 @@ func (f *DenseNumFeature) Span(cases *[]int, counter *[]int) (span float64) {
 			if first {
 				min = val
 				max = val
+				first = false
 				continue
 			}
 			switch {
-- 
2.43.0


From edc7e4c3dc3caacedb000f87114ee940705b8345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 13/79] fix: the regret impurity divides by the number of cases
 once

---
 regrettarget.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regrettarget.go b/regrettarget.go
index 68b160a..2a24949 100644
--- a/regrettarget.go
+++ b/regrettarget.go
@@ -123,7 +123,6 @@ func (target *RegretTarget) ImpFromCounts(t int, counter *[]int) (e float64) {
 
 	for cat, count := range *counter {
 
-		t += count
 		if cat != mi {
 			e += target.Costs[cat] * float64(count)
 		}
-- 
2.43.0


From 2baed6a8e79b4c6f322c8c451fb0cef86f18cd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 14/79] fix: the disutility entropy of a group uses the costs
 like its incremental update does

---
 dentropytarget.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dentropytarget.go b/dentropytarget.go
index ace7e78..7bfcf0d 100644
--- a/dentropytarget.go
+++ b/dentropytarget.go
@@ -113,18 +113,18 @@ func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 	return fmt.Sprintf("%v", prob_true)
 }
 
-//DEntropyTarget.Impurity implements categorical entropy as sum(pj*log2(pj)) where pj
-//is the number of cases with the j'th category over the total number of cases.
+//DEntropyTarget.Impurity implements disutility entropy as sum(cj*pj*log(pj)) where pj
+//is the number of cases with the j'th category over the total number of cases and cj its cost.
 func (target *DEntropyTarget) Impurity(cases *[]int, counts *[]int) (e float64) {
 
 	total := len(*cases)
 	target.CountPerCat(cases, counts)
 
 	p := 0.0
-	for _, i := range *counts {
+	for c, i := range *counts {
 		if i > 0 {
 			p = float64(i) / float64(total)
-			e -= p * math.Log(p)
+			e -= target.Costs[c] * p * math.Log(p)
 		}
 
 	}
-- 
2.43.0


From 6b18956a6502071c8912298d338914004924276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 15/79] fix: predicting with disutility entropy or Hellinger
 targets adds no category to the data

---
 dentropytarget.go  | 5 ++---
 hdistancetarget.go | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/dentropytarget.go b/dentropytarget.go
index 7bfcf0d..9acb16f 100644
--- a/dentropytarget.go
+++ b/dentropytarget.go
@@ -84,7 +84,6 @@ func (target *DEntropyTarget) ImpFromCounts(total int, counts *[]int) (e float64
 
 func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 	prob_true := 0.0
-	t := target.CatToNum("True")
 	weightedvoted := true
 	if weightedvoted {
 		count := 0.0
@@ -92,7 +91,7 @@ func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 		for _, i := range cases {
 			ti := target.Geti(i)
 			cost := target.Costs[ti]
-			if ti == t {
+			if target.NumToCat(ti) == "True" {
 				count += cost
 			}
 			total += cost
@@ -103,7 +102,7 @@ func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 	} else {
 		count := 0
 		for _, i := range cases {
-			if target.Geti(i) == t {
+			if target.NumToCat(target.Geti(i)) == "True" {
 				count++
 			}
 
diff --git a/hdistancetarget.go b/hdistancetarget.go
index 2aff363..b44c9ba 100644
--- a/hdistancetarget.go
+++ b/hdistancetarget.go
@@ -65,11 +65,10 @@ func (target *HDistanceTarget) HDist(lcounts *[]int, rcounts *[]int) (d float64)
 func (target *HDistanceTarget) FindPredicted(cases []int) (pred string) {
 	// TODO(ryan): lapalcian smoothing?
 	prob_true := 0.0
-	t := target.CatToNum(target.Pos_class)
 
 	count := 0
 	for _, i := range cases {
-		if target.Geti(i) == t {
+		if target.NumToCat(target.Geti(i)) == target.Pos_class {
 			count++
 		}
 
-- 
2.43.0


From 25e9dcef6f8686732fd932d139315c9ea23f7e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 16/79] fix: the numerical split search also tries the split
 that leaves leafSize cases on the right

---
 densenumfeature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index c7642f7..463884f 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -304,7 +304,7 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 		lastsplit := 0
 		var innerimp float64
-		stop := (ncases - leafSize)
+		stop := (ncases - leafSize) + 1
 		constant = (sortedData[0] + constant_cutoff) >= sortedData[ncases-1]
 		if constant {
 			impurityDecrease = minImp
-- 
2.43.0


From 43b0fd67930c28ffbff74675c62660ed43371448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 17/79] fix: the threshold of a numerical split separates the
 groups that were evaluated

---
 densenumfeature.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 463884f..d7040f9 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -355,9 +355,12 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 			if innerimp > impurityDecrease {
 				impurityDecrease = innerimp
-				splitf = sortedData[lasti]
-				splitf += sortedData[i]
-				splitf /= 2.0
+				//split half way between the neighbouring values, but such that the
+				//threshold still separates them when rounded
+				splitf = sortedData[i-1]/2.0 + sortedData[i]/2.0
+				if !(splitf >= sortedData[i-1] && splitf < sortedData[i]) {
+					splitf = sortedData[i-1]
+				}
 				//fmt.Println(len(sorter.Cases), sorter.Vals, allocs.LM, allocs.RM, codedSplit, impurityDecrease)
 
 			}
-- 
2.43.0


From 54855c679cb61dddb2101b06aa6de4851b7b1d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 18/79] fix: split scores of gradient boosting are not reduced
 by missing values that are pure

---
 densecatfeature.go | 5 +++++
 densenumfeature.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index bdd806b..4a208ea 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -219,6 +219,11 @@ func (f *DenseCatFeature) BestSplit(target Target,
 	}
 
 	if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {
+		if parentImp < 0 {
+			//the target scores splits instead of measuring impurity
+			impurityDecrease *= float64(nonmissing) / float64(total)
+			return
+		}
 		impurityDecrease = parentImp + ((float64(nonmissing)*(impurityDecrease-nonmissingparentImp) - float64(nmissing)*missingimp) / float64(total))
 	}
 	return
diff --git a/densenumfeature.go b/densenumfeature.go
index d7040f9..1bf87f6 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -264,6 +264,11 @@ func (f *DenseNumFeature) BestSplit(target Target,
 	codedSplit, impurityDecrease, constant = f.BestNumSplit(target, tosplit, nonmissingparentImp, leafSize, randomSplit, allocs)
 
 	if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {
+		if parentImp < 0 {
+			//the target scores splits instead of measuring impurity
+			impurityDecrease *= float64(nonmissing) / float64(total)
+			return
+		}
 		impurityDecrease = parentImp + ((float64(nonmissing)*(impurityDecrease-nonmissingparentImp) - float64(nmissing)*missingimp) / float64(total))
 	}
 	return
-- 
2.43.0


From 44c3f3257c01217d33a082883736466e45521032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 19/79] fix: the splitter search stops once every non constant
 candidate was tried

---
 featurematrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index 282b651..1a4c67d 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -189,8 +189,8 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 	//haven't looked at mTry features
 	for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j < mTry; j++ {
 
-		//Break early if there aren't any more nonconstant features
-		if nConstants >= lcans {
+		//Break early if there aren't any more nonconstant features that haven't been tried
+		if nConstants+lastSample >= lcans {
 			return
 		}
 
-- 
2.43.0


From 4e11a388ac08563880e7eda90ddb3e956a3bf374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 20/79] fix: vetting measures the contrast's decrease from the
 contrast's own impurity

---
 featurematrix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 1a4c67d..c2ad63d 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -235,7 +235,8 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 			}
 
 			allocs.ContrastTarget.(Feature).ShuffleCases(casept, allocs)
-			_, vetImp, _ = f.BestSplit(allocs.ContrastTarget, casept, parentImp, leafSize, extraRandom, allocs)
+			vetParentImp := allocs.ContrastTarget.Impurity(casept, allocs.Counter)
+			_, vetImp, _ = f.BestSplit(allocs.ContrastTarget, casept, vetParentImp, leafSize, extraRandom, allocs)
 			inerImp = inerImp - vetImp
 		}
 
-- 
2.43.0


From e29b4cbabc4af5cafe4eafe2e2f1e1b4ef8f4cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 21/79] fix: a regrown tree keeps no branches of the tree it
 was before

---
 tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree.go b/tree.go
index c01f024..6f6f412 100644
--- a/tree.go
+++ b/tree.go
@@ -156,6 +156,7 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 					n.Left = new(Node)
 					n.Right = new(Node)
 				}
+				n.Missing = nil
 				if splitmissing {
 					n.Missing = new(Node)
 				}
@@ -169,6 +170,7 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 		split = nil
 		n.CodedSplit = nil
 		n.Splitter = nil
+		n.Left, n.Right, n.Missing = nil, nil, nil
 		n.Pred = target.FindPredicted(*innercases)
 		return
 
@@ -262,6 +264,7 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 			split = nil
 			n.CodedSplit = nil
 			n.Splitter = nil
+			n.Left, n.Right, n.Missing = nil, nil, nil
 			n.Pred = target.FindPredicted(innercases)
 			continue
 
-- 
2.43.0


From 60704a4516de1411d91f4c448ef6f4d28bad3b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 22/79] fix: no missing branch is grown where no training case
 is missing

---
 node.go | 6 +++++-
 tree.go | 7 +++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/node.go b/node.go
index 3b45e43..b5ba64b 100644
--- a/node.go
+++ b/node.go
@@ -78,7 +78,11 @@ func (n *Node) CodedRecurse(r CodedRecursable, fm *FeatureMatrix, cases *[]int,
 		n.Left.CodedRecurse(r, fm, &cs, depth, nconstants)
 		cs = (*cases)[ri:]
 		n.Right.CodedRecurse(r, fm, &cs, depth, nconstants)
-		if li != ri && n.Missing != nil {
+		if li == ri {
+			//no cases to predict missing values from
+			n.Missing = nil
+		}
+		if n.Missing != nil {
 			cs = (*cases)[li:ri]
 			n.Missing.CodedRecurse(r, fm, &cs, depth, nconstants)
 		}
diff --git a/tree.go b/tree.go
index 6f6f412..4db2b81 100644
--- a/tree.go
+++ b/tree.go
@@ -248,11 +248,10 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					n.Right = new(Node)
 					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, nconstants, n, false})
 
-					if splitmissing {
+					n.Missing = nil
+					if splitmissing && li != ri {
 						n.Missing = new(Node)
-						if li != ri {
-							nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, nconstants, n, false})
-						}
+						nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, nconstants, n, false})
 					}
 
 					continue
-- 
2.43.0


From 9447e061ad0500c5ed31ef4a8cb9f5d1f8e4bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 23/79] fix: merged jungle nodes are grown from the cases of
 both nodes

---
 tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree.go b/tree.go
index 4db2b81..594be66 100644
--- a/tree.go
+++ b/tree.go
@@ -313,6 +313,7 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					nodes[combine].dead = true
 					nj := nodes[combine]
 					nodei.end = nj.end
+					nodes[i].end = nj.end
 					parent := nj.parent
 					switch nj.n {
 					case parent.Left:
-- 
2.43.0


From 856738cac3399bcabaebee21f258118d1958b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 24/79] fix: jungles take no feature for constant that is
 constant elsewhere

---
 tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 594be66..b41d732 100644
--- a/tree.go
+++ b/tree.go
@@ -217,7 +217,9 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 			start = node.start
 			end = node.end
 			innercases = cases[node.start:node.end]
-			nconstants = node.nconstants
+			//nodes at the same level share candidates so the constants at its end are not
+			//the ones found above this node
+			nconstants = 0
 
 			if (depth < maxDepth || maxDepth <= 0) && (2*leafSize) <= len(innercases) {
 
-- 
2.43.0


From f8953f4167d237dad70bedc9a8272a4ca05018e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 25/79] fix: jungles do not merge nodes of targets that score
 splits

---
 tree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index b41d732..22fad65 100644
--- a/tree.go
+++ b/tree.go
@@ -300,7 +300,12 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 						impDec = target.SplitImpurity(&innercases, &innercases2, nil, allocs)
 
 						innercases = cases[nodei.start:nodej.end]
-						impDec -= target.Impurity(&innercases, allocs.Counter)
+						mergedImp := target.Impurity(&innercases, allocs.Counter)
+						if mergedImp < 0 {
+							//the target scores splits instead of measuring impurity
+							continue
+						}
+						impDec -= mergedImp
 
 						if impDec > maxImpDec {
 							maxImpDec = impDec
-- 
2.43.0


From 0e827f692b96c4e40385dccf7d8d3683eabe4c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 26/79] fix: balanced samplers cope with classes that have no
 cases

---
 sampeling.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sampeling.go b/sampeling.go
index de4afbb..c7feebf 100644
--- a/sampeling.go
+++ b/sampeling.go
@@ -28,6 +28,17 @@ func NewBalancedSampler(catf *DenseCatFeature) (s *BalancedSampler) {
 			s.Cases[v] = append(s.Cases[v], i)
 		}
 	}
+	s.Cases = dropEmpty(s.Cases)
+	return
+}
+
+//dropEmpty removes the classes that have no cases to draw from.
+func dropEmpty(classes [][]int) (present [][]int) {
+	for _, cases := range classes {
+		if len(cases) > 0 {
+			present = append(present, cases)
+		}
+	}
 	return
 }
 
@@ -73,6 +84,9 @@ func NewSecondaryBalancedSampler(target *DenseCatFeature, balanceby *DenseCatFea
 			s.Samplers[balanceCat][targetCat] = append(s.Samplers[balanceCat][targetCat], i)
 		}
 	}
+	for i := range s.Samplers {
+		s.Samplers[i] = dropEmpty(s.Samplers[i])
+	}
 	return
 
 }
-- 
2.43.0


From 0982c1aea2661bb94a791ea3cdee093f86a636a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 27/79] fix: GrowRandomForest samples only cases whose target
 is known

---
 forrest.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/forrest.go b/forrest.go
index fd6aab9..a515d3e 100644
--- a/forrest.go
+++ b/forrest.go
@@ -53,9 +53,19 @@ func GrowRandomForest(fm *FeatureMatrix,
 	//Slices for reuse during search for best splitter.
 	allocs := NewBestSplitAllocs(nSamples, target)
 
+	//Only cases with a known target can be trained on.
+	known := make([]int, 0, fm.Data[0].Length())
+	for i := 0; i < fm.Data[0].Length(); i++ {
+		if !target.(Feature).IsMissing(i) {
+			known = append(known, i)
+		}
+	}
+
 	for i := 0; i < nTrees; i++ {
-		nCases := fm.Data[0].Length()
-		cases := SampleWithReplacment(nSamples, nCases)
+		cases := SampleWithReplacment(nSamples, len(known))
+		for j, c := range cases {
+			cases[j] = known[c]
+		}
 
 		f.Trees = append(f.Trees, NewTree())
 		f.Trees[i].Grow(fm, target, cases, candidates, nil, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance, nil, allocs)
-- 
2.43.0


From 3859c665ade481f935ec28bf860c0f8b3f4645a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 28/79] fix: adaptive boosting targets are boosted, with the
 predictions of the tree itself

---
 adaboosttarget.go       | 30 +++++++++++-------------------
 adacosttarget.go        | 28 +++++++++++-----------------
 numadaboostingtarget.go | 17 +++++++++++------
 3 files changed, 33 insertions(+), 42 deletions(-)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 8877fa6..0d45256 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -111,35 +111,27 @@ func (target *AdaBoostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e flo
 }
 
 //Boost performs categorical adaptive boosting using the specified partition and
-//returns the weight that tree that generated the partition should be given.
-func (t *AdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+//its predictions and returns the weight that tree that generated the partition
+//should be given.
+func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
-	counter := make([]int, t.NCats())
-	for _, cases := range *leaves {
-		weight += t.Impurity(&cases, &counter)
+	for i, cases := range *leaves {
+		for _, c := range cases {
+			if t.IsMissing(c) == false && t.GetStr(c) != (*preds)[i] {
+				weight += t.Weights[c]
+			}
+		}
 	}
 	if weight >= .5 {
 		return 0.0
 	}
 	weight = .5 * math.Log((1-weight)/weight)
 
-	for _, cases := range *leaves {
-
-		t.CountPerCat(&cases, &counter)
-
-		var m, mc int
-		for i, c := range counter {
-			if c > mc {
-				m = i
-				mc = c
-			}
-		}
-
+	for i, cases := range *leaves {
 		for _, c := range cases {
 			if t.IsMissing(c) == false {
-				cat := t.Geti(c)
 				//CHANGE from adaboost:
-				if cat != m {
+				if t.GetStr(c) != (*preds)[i] {
 					t.Weights[c] = t.Weights[c] * math.Exp(weight)
 				} else {
 					t.Weights[c] = t.Weights[c] * math.Exp(-weight)
diff --git a/adacosttarget.go b/adacosttarget.go
index 606fede..6015bdc 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -127,34 +127,28 @@ func (target *AdaCostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e floa
 }
 
 //Boost performs categorical adaptive boosting using the specified partition and
-//returns the weight that tree that generated the partition should be given.
-func (t *AdaCostTarget) Boost(leaves *[][]int) (weight float64) {
+//its predictions and returns the weight that tree that generated the partition
+//should be given.
+func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
-	counter := make([]int, t.NCats())
-	for _, cases := range *leaves {
-		weight += t.Impurity(&cases, &counter)
+	for i, cases := range *leaves {
+		for _, c := range cases {
+			if t.IsMissing(c) == false && t.GetStr(c) != (*preds)[i] {
+				weight += t.Weights[c] * t.Costs[t.Geti(c)]
+			}
+		}
 	}
 	if weight >= .5 {
 		return 0.0
 	}
 	weight = .5 * math.Log((1-weight)/weight)
 
-	for _, cases := range *leaves {
-		t.CountPerCat(&cases, &counter)
-
-		var m, mc int
-		for i, c := range counter {
-			if c > mc {
-				m = i
-				mc = c
-			}
-		}
-
+	for i, cases := range *leaves {
 		for _, c := range cases {
 			if t.IsMissing(c) == false {
 				cat := t.Geti(c)
 				//CHANGE from adaboost:
-				if cat != m {
+				if t.GetStr(c) != (*preds)[i] {
 					t.Weights[c] = t.Weights[c] * math.Exp(weight) * t.Costs[cat]
 				} else {
 					t.Weights[c] = t.Weights[c] * math.Exp(-weight) * t.Costs[cat]
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index ed5be91..1dcca51 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -65,7 +65,7 @@ func (target *NumAdaBoostTarget) Impurity(cases *[]int, counter *[]int) (e float
 }
 
 //AdaBoostTarget.Boost performs numerical adaptive boosting using the specified partition and
-//returns the weight that tree that generated the partition should be given.
+//its predictions and returns the weight that tree that generated the partition should be given.
 //Trees with error greater then the impurity of the total feature (NormFactor) times the number
 //of partions are given zero weight. Other trees have tree weight set to:
 //
@@ -77,14 +77,19 @@ func (target *NumAdaBoostTarget) Impurity(cases *[]int, counter *[]int) (e float
 //
 //These functions are chosen to provide a rough analog to catagorical adaptive boosting for
 //numerical data with unbounded error.
-func (t *NumAdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	if len(*leaves) == 0 {
 		return 0.0
 	}
 	imp := 0.0
 	//nCases := 0
-	for _, cases := range *leaves {
-		imp += t.Impurity(&cases, nil)
+	for i, cases := range *leaves {
+		m := ParseFloat((*preds)[i])
+		for _, c := range cases {
+			if t.IsMissing(c) == false {
+				imp += t.Weights[c] * t.Norm(c, m)
+			}
+		}
 		//nCases += len(cases)
 	}
 	norm := t.NormFactor
@@ -94,8 +99,8 @@ func (t *NumAdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
 
 	weight = math.Log(norm / imp)
 
-	for _, cases := range *leaves {
-		m := t.Predicted(&cases)
+	for i, cases := range *leaves {
+		m := ParseFloat((*preds)[i])
 		for _, c := range cases {
 			if t.IsMissing(c) == false {
 				t.Weights[c] = t.Weights[c] * math.Exp(weight*(t.Norm(c, m)-imp))
-- 
2.43.0


From ab79d9cfbb75892b30990e5b0859688fd6697bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 29/79] fix: a tree without errors gets a finite boosting
 weight

---
 adaboosttarget.go       | 2 ++
 adacosttarget.go        | 2 ++
 numadaboostingtarget.go | 6 +++++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 0d45256..6d72d55 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -125,6 +125,8 @@ func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64
 	if weight >= .5 {
 		return 0.0
 	}
+	//a tree without errors gets a large but finite weight
+	weight = math.Max(weight, minImp)
 	weight = .5 * math.Log((1-weight)/weight)
 
 	for i, cases := range *leaves {
diff --git a/adacosttarget.go b/adacosttarget.go
index 6015bdc..4576333 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -141,6 +141,8 @@ func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64)
 	if weight >= .5 {
 		return 0.0
 	}
+	//a tree without errors gets a large but finite weight
+	weight = math.Max(weight, minImp)
 	weight = .5 * math.Log((1-weight)/weight)
 
 	for i, cases := range *leaves {
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index 1dcca51..df7a86b 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -97,7 +97,11 @@ func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight floa
 		return 0.0
 	}
 
-	weight = math.Log(norm / imp)
+	//a tree without errors gets a large but finite weight
+	weight = -math.Log(minImp)
+	if imp > minImp*norm {
+		weight = math.Log(norm / imp)
+	}
 
 	for i, cases := range *leaves {
 		m := ParseFloat((*preds)[i])
-- 
2.43.0


From 412b3fb4f481f4af76343c09b1d8fe0099230b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:48 +0000
Subject: [PATCH 30/79] fix: weights of numeric adaptive boosting don't
 overflow

---
 numadaboostingtarget.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index df7a86b..1a2e782 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -103,15 +103,28 @@ func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight floa
 		weight = math.Log(norm / imp)
 	}
 
+	exponents := make([]float64, len(t.Weights))
 	for i, cases := range *leaves {
 		m := ParseFloat((*preds)[i])
 		for _, c := range cases {
 			if t.IsMissing(c) == false {
-				t.Weights[c] = t.Weights[c] * math.Exp(weight*(t.Norm(c, m)-imp))
+				exponents[c] = weight * (t.Norm(c, m) - imp)
 			}
 
 		}
 	}
+	//the weights are normalized so a common factor keeps the largest from overflowing
+	max := math.Inf(-1)
+	for c, v := range t.Weights {
+		if v > 0.0 && exponents[c] > max {
+			max = exponents[c]
+		}
+	}
+	for c, v := range t.Weights {
+		if v > 0.0 {
+			t.Weights[c] = v * math.Exp(exponents[c]-max)
+		}
+	}
 
 	normfactor := 0.0
 	for _, v := range t.Weights {
-- 
2.43.0


From 173f2b9805a7b2877c52688f3e759a02b68b1c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 31/79] fix: cases without a known class get no boosting weight

---
 adaboosttarget.go | 11 ++++++++++-
 adacosttarget.go  | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 6d72d55..bfac69a 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -19,8 +19,17 @@ NewAdaBoostTarget creates a categorical adaptive boosting target and initializes
 func NewAdaBoostTarget(f CatFeature) (abt *AdaBoostTarget) {
 	nCases := f.Length()
 	abt = &AdaBoostTarget{f, make([]float64, nCases)}
+	//only cases with a known class have weight
+	nKnown := 0
 	for i := range abt.Weights {
-		abt.Weights[i] = 1 / float64(nCases)
+		if !f.IsMissing(i) {
+			nKnown++
+		}
+	}
+	for i := range abt.Weights {
+		if !f.IsMissing(i) {
+			abt.Weights[i] = 1 / float64(nKnown)
+		}
 	}
 	return
 }
diff --git a/adacosttarget.go b/adacosttarget.go
index 4576333..fb06a63 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -26,8 +26,17 @@ NewAdaCostTarget creates a categorical adaptive boosting target and initializes
 func NewAdaCostTarget(f CatFeature) (abt *AdaCostTarget) {
 	nCases := f.Length()
 	abt = &AdaCostTarget{f, make([]float64, nCases), make([]float64, f.NCats())}
+	//only cases with a known class have weight
+	nKnown := 0
 	for i := range abt.Weights {
-		abt.Weights[i] = 1 / float64(nCases)
+		if !f.IsMissing(i) {
+			nKnown++
+		}
+	}
+	for i := range abt.Weights {
+		if !f.IsMissing(i) {
+			abt.Weights[i] = 1 / float64(nKnown)
+		}
 	}
 	return
 }
-- 
2.43.0


From 708198d8fdbed9e5f20b47ac1dae95b66ea77f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 32/79] fix: costs of zero don't turn boosting weights into NaN

---
 adacosttarget.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/adacosttarget.go b/adacosttarget.go
index fb06a63..73d8862 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -154,6 +154,7 @@ func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64)
 	weight = math.Max(weight, minImp)
 	weight = .5 * math.Log((1-weight)/weight)
 
+	before := append([]float64{}, t.Weights...)
 	for i, cases := range *leaves {
 		for _, c := range cases {
 			if t.IsMissing(c) == false {
@@ -172,6 +173,11 @@ func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64)
 	for _, v := range t.Weights {
 		normfactor += v
 	}
+	if normfactor == 0.0 {
+		//none of the cases that have weight cost anything
+		copy(t.Weights, before)
+		return
+	}
 	for i, v := range t.Weights {
 		t.Weights[i] = v / normfactor
 	}
-- 
2.43.0


From 3bce8d74068641db5cf64d1d1699e34e8cd3e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 33/79] fix: gradient boosting leaves its data and the missing
 targets alone

---
 gradboosttarget.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/gradboosttarget.go b/gradboosttarget.go
index 98cfee6..b8029b0 100644
--- a/gradboosttarget.go
+++ b/gradboosttarget.go
@@ -15,18 +15,32 @@ type GradBoostTarget struct {
 
 func NewGradBoostTarget(f NumFeature, learnrate float64) (gbc *GradBoostTarget) {
 
-	//res := NumFeature.(*DenseNumFeature).Copy().(*DenseNumFeature)
+	//the residuals are kept in a copy so that the data itself isn't changed
+	_, l1 := f.(*L1Target)
+	f = f.Copy().(NumFeature)
+	if l1 {
+		f = &L1Target{f}
+	}
+
 	sum := 0.0
+	known := 0
 	for i := 0; i < f.Length(); i++ {
-		sum += f.Get(i)
+		if !f.IsMissing(i) {
+			sum += f.Get(i)
+			known++
+		}
 	}
 
 	// Set intial residual to
-	prior := sum / float64(f.Length())
+	prior := 0.0
+	if known > 0 {
+		prior = sum / float64(known)
+	}
 
 	for i := 0; i < f.Length(); i++ {
-		v := f.Get(i) - prior
-		f.Put(i, v)
+		if !f.IsMissing(i) {
+			f.Put(i, f.Get(i)-prior)
+		}
 	}
 
 	//fmt.Println(res.Copy().(*DenseNumFeature).NumData)
-- 
2.43.0


From bc7ec6074f06f77749a52e69bb7e131417d1b596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:00 +0000
Subject: [PATCH 34/79] fix: copies of a feature with missing values know that
 they have them

---
 densecatfeature.go | 1 +
 densenumfeature.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 4a208ea..7285f19 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1221,6 +1221,7 @@ func (f *DenseCatFeature) CopyInTo(copyf Feature) {
 
 	copy(copyf.(*DenseCatFeature).Missing, f.Missing)
 	copy(copyf.(*DenseCatFeature).CatData, f.CatData)
+	copyf.(*DenseCatFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
diff --git a/densenumfeature.go b/densenumfeature.go
index 1bf87f6..9fb0d3e 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -653,7 +653,7 @@ func (f *DenseNumFeature) Copy() Feature {
 		nil,
 		make([]bool, capacity),
 		f.Name,
-		false}
+		f.HasMissing}
 
 	copy(fake.Missing, f.Missing)
 
@@ -667,6 +667,7 @@ func (f *DenseNumFeature) Copy() Feature {
 func (f *DenseNumFeature) CopyInTo(copyf Feature) {
 	copy(copyf.(*DenseNumFeature).Missing, f.Missing)
 	copy(copyf.(*DenseNumFeature).NumData, f.NumData)
+	copyf.(*DenseNumFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
-- 
2.43.0


From 309c617d5383f81e071b406468ce80c65256d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 35/79] fix: a copied categorical feature has its own
 categories

---
 densecatfeature.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 7285f19..99c17d7 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1198,9 +1198,13 @@ func (f *DenseCatFeature) ShuffledCopy() Feature {
 /*Copy returns a copy of f.*/
 func (f *DenseCatFeature) Copy() Feature {
 	capacity := len(f.Missing)
+	catmap := &CatMap{make(map[string]int, len(f.Map)),
+		append([]string{}, f.Back...)}
+	for k, v := range f.Map {
+		catmap.Map[k] = v
+	}
 	fake := &DenseCatFeature{
-		&CatMap{f.Map,
-			f.Back},
+		catmap,
 		nil,
 		make([]bool, capacity),
 		f.Name,
-- 
2.43.0


From 94349fdb4f7944e1908bbe414189adb839b472b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 36/79] fix: encoded features don't share missing marks

---
 densecatfeature.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 99c17d7..f2c5454 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -30,7 +30,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 	if f.NCats() <= 2 {
 		fn := &DenseNumFeature{
 			make([]float64, l, l),
-			f.Missing,
+			append([]bool{}, f.Missing...),
 			f.Name,
 			f.HasMissing}
 		for i, v := range f.CatData {
@@ -42,7 +42,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 		for j, sv := range f.Back {
 			fn := &DenseNumFeature{
 				make([]float64, l, l),
-				f.Missing,
+				append([]bool{}, f.Missing...),
 				f.Name + "==" + sv,
 				f.HasMissing}
 			for i, v := range f.CatData {
@@ -65,7 +65,7 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 				&CatMap{map[string]int{"false": 0, "true": 1},
 					[]string{"false", "true"}},
 				make([]int, l, l),
-				f.Missing,
+				append([]bool{}, f.Missing...),
 				f.Name + "==" + sv,
 				f.RandomSearch,
 				f.HasMissing}
-- 
2.43.0


From bde73c785e79ec51d052462e8c042a993ced3d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 37/79] fix: one hot encoding keeps features with two or less
 categories

---
 densecatfeature.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index f2c5454..e21c622 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -56,9 +56,13 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 	return
 }
 
+//OneHot returns a true/false feature for each of the distinct categories in the feature.
+//Features with two or less categories are returned as they are.
 func (f *DenseCatFeature) OneHot() (fs []Feature) {
 	l := f.Length()
-	if f.NCats() > 2 {
+	if f.NCats() <= 2 {
+		fs = []Feature{f.Copy()}
+	} else {
 		fs = make([]Feature, 0, f.NCats())
 		for j, sv := range f.Back {
 			fn := &DenseCatFeature{
-- 
2.43.0


From 345e33123100b68e826bccf85817a30b9528d2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 38/79] fix: NaN is a missing value for numeric features

---
 densenumfeature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 9fb0d3e..0ad3ebd 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -21,7 +21,7 @@ type DenseNumFeature struct {
 //during data parseing.
 func (f *DenseNumFeature) Append(v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.NumData = append(f.NumData, 0.0)
 		f.Missing = append(f.Missing, true)
 		f.HasMissing = true
@@ -39,7 +39,7 @@ func (f *DenseNumFeature) Less(i int, j int) bool {
 //PutStr parses a string and puts it in the i'th position
 func (f *DenseNumFeature) PutStr(i int, v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.Missing[i] = true
 		f.HasMissing = true
 		return
-- 
2.43.0


From 51dbba8a120e45acb532e212fe0874775256c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:06 +0000
Subject: [PATCH 39/79] fix: putting a missing token in a categorical feature
 makes the value missing

---
 densecatfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index e21c622..79c7ecf 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -151,6 +151,7 @@ func (f *DenseCatFeature) PutStr(i int, v string) {
 	if len(norm) == 0 || norm == "?" || norm == "nan" || norm == "na" || norm == "null" {
 		f.Missing[i] = true
 		f.HasMissing = true
+		return
 	}
 	vi := f.CatToNum(v)
 	f.CatData[i] = vi
-- 
2.43.0


From c4e266a483ac86125c8b3cdf280be09eac66f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 40/79] fix: nothing is imputed when no value is known

---
 densecatfeature.go | 5 +++++
 densenumfeature.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index 79c7ecf..bea9cf1 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1240,6 +1240,11 @@ func (f *DenseCatFeature) ImputeMissing() {
 		cases = append(cases, i)
 	}
 
+	if f.NCats() == 0 {
+		//there are no values to impute from
+		return
+	}
+
 	mode := f.Modei(&cases)
 
 	for i, m := range f.Missing {
diff --git a/densenumfeature.go b/densenumfeature.go
index 0ad3ebd..d5026f8 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -679,6 +679,10 @@ func (f *DenseNumFeature) ImputeMissing() {
 	mean := 0.0
 
 	mean = f.Mean(&cases)
+	if math.IsNaN(mean) {
+		//there are no values to impute from
+		return
+	}
 
 	for i, m := range f.Missing {
 		if m {
-- 
2.43.0


From 817a8c49ea632b56f78055dedd396015e9f16a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 41/79] fix: stripped categories keep their numbers

---
 featurematrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index c2ad63d..92f912e 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -51,7 +51,7 @@ func (fm *FeatureMatrix) StripStrings(target string) {
 			for j, v := range f.(*DenseCatFeature).Back {
 				v = fmt.Sprintf("%v", j)
 				f.(*DenseCatFeature).Back[j] = v
-				f.(*DenseCatFeature).Map[v] = i
+				f.(*DenseCatFeature).Map[v] = j
 
 			}
 
-- 
2.43.0


From c6f2fd55316d00e08303ad494e86e5ca248d9490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 42/79] fix: writing libsvm cases doesn't impute the data it is
 given

---
 libsvm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsvm.go b/libsvm.go
index 06e1c11..7a0130f 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -163,7 +163,7 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 				encode = true
 			}
 			noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)
-			noTargetFm.Data = append(noTargetFm.Data, f)
+			noTargetFm.Data = append(noTargetFm.Data, f.Copy())
 
 		}
 	}
-- 
2.43.0


From 76c5a3b26910c836b8a29404d58cebd4d3033d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:32 +0000
Subject: [PATCH 43/79] fix: libsvm files may have blank lines and end without
 a newline

---
 libsvm.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libsvm.go b/libsvm.go
index 7a0130f..789e028 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -20,17 +20,21 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 	i := 0
 	ncases := 0
 	for {
-		ncases++
-
 		line, err := reader.ReadString('\n')
-		if err == io.EOF {
-			break
-		} else if err != nil {
+		if err != nil && err != io.EOF {
 			log.Print("Error:", err)
 			return nil
 		}
 
 		vals := strings.Fields(line)
+		if len(vals) == 0 {
+			if err == io.EOF {
+				break
+			}
+			//skip blank lines
+			continue
+		}
+		ncases++
 
 		if i == 0 {
 			name := "0"
-- 
2.43.0


From cda2f2add2023aebb348fb5b92213a8b62f0862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 44/79] fix: afm files may have no cases and features with
 short names

---
 featurematrix.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index 92f912e..ac3ede6 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -352,20 +352,20 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 	tsv.Comma = '\t'
 	headers, err := tsv.Read()
 	if err == io.EOF {
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return &FeatureMatrix{data, lookup, nil}
 	} else if err != nil {
 		log.Print("Error:", err)
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return &FeatureMatrix{data, lookup, nil}
 	}
 	headers = headers[1:]
 
-	if len(headers[0]) > 1 {
+	if len(headers) > 0 && len(headers[0]) > 1 {
 		sniff := headers[0][:2]
 		if sniff == "N:" || sniff == "C:" || sniff == "B:" {
 			//features in cols
 
 			for i, label := range headers {
-				if label[:2] == "N:" {
+				if strings.HasPrefix(label, "N:") {
 					data = append(data, &DenseNumFeature{
 						make([]float64, 0, 0),
 						make([]bool, 0, 0),
@@ -447,8 +447,8 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 //"N:"" indicating numerical, anything else (usually "C:" and "B:") for categorical
 func ParseFeature(record []string) Feature {
 	capacity := len(record)
-	switch record[0][0:2] {
-	case "N:":
+	switch {
+	case strings.HasPrefix(record[0], "N:"):
 		f := &DenseNumFeature{
 			nil,
 			make([]bool, 0, capacity),
-- 
2.43.0


From b7826f57b7948d9148a712a62cc513bb4e6334c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:34 +0000
Subject: [PATCH 45/79] fix: arff files may have integer attributes, spaces
 after commas and no cases

---
 arff.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arff.go b/arff.go
index 8c1b841..ac6a89e 100644
--- a/arff.go
+++ b/arff.go
@@ -24,11 +24,11 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 	for {
 
 		line, err := reader.ReadString('\n')
-		if err != nil {
+		norm := strings.ToLower(line)
+		if err != nil && !strings.HasPrefix(norm, "@data") {
 			log.Print("Error:", err)
 			return nil
 		}
-		norm := strings.ToLower(line)
 
 		if strings.HasPrefix(norm, "@data") {
 			break
@@ -37,7 +37,8 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 		if strings.HasPrefix(norm, "@attribute") {
 			vals := strings.Fields(line)
 
-			if strings.ToLower(vals[2]) == "numeric" || strings.ToLower(vals[2]) == "real" {
+			ftype := strings.ToLower(vals[2])
+			if ftype == "numeric" || ftype == "real" || ftype == "integer" {
 				data = append(data, &DenseNumFeature{
 					make([]float64, 0, 0),
 					make([]bool, 0, 0),
@@ -65,6 +66,7 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 
 	csvdata := csv.NewReader(reader)
 	csvdata.Comment = '%'
+	csvdata.TrimLeadingSpace = true
 	//csvdata.Comma = ','
 
 	fm.LoadCases(csvdata, false)
-- 
2.43.0


From 4333b951a09360c2786c00105489cf7d73c693f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:00 +0000
Subject: [PATCH 46/79] fix: gradient boosting classification leaves cases
 without a class alone

---
 gradboostclasstarget.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gradboostclasstarget.go b/gradboostclasstarget.go
index 64833be..abc34f0 100644
--- a/gradboostclasstarget.go
+++ b/gradboostclasstarget.go
@@ -40,6 +40,9 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 	pred := actual.Copy().(*DenseNumFeature)
 	// Make sure the encoding has the positive class as 1
 	for i := 0; i < f.Length(); i++ {
+		if f.IsMissing(i) {
+			continue
+		}
 		if f.GetStr(i) == pos_class {
 			actual.Put(i, 1.0)
 		} else {
@@ -51,14 +54,21 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 	res := &GradBoostTarget{actual.Copy().(*DenseNumFeature), learnrate, 0.0}
 
 	pos := 0.0
+	known := 0.0
 	for i := 0; i < actual.Length(); i++ {
-		pos += actual.Get(i)
+		if !actual.IsMissing(i) {
+			pos += actual.Get(i)
+			known++
+		}
 	}
 
 	// Set intial residual to
-	prior := math.Log(pos / (float64(res.Length()) - pos))
+	prior := math.Log(pos / (known - pos))
 
 	for i := 0; i < res.Length(); i++ {
+		if res.IsMissing(i) {
+			continue
+		}
 		pred.Put(i, prior)
 		v := actual.Get(i) - Expit(prior)
 		res.Put(i, v)
@@ -110,6 +120,9 @@ func (f *GradBoostClassTarget) FindPredicted(cases []int) (pred string) {
 //specified cases from the value for those cases.
 func (f *GradBoostClassTarget) Update(cases *[]int, predicted float64) {
 	for _, i := range *cases {
+		if f.IsMissing(i) {
+			continue
+		}
 		pred := f.Pred.Get(i) + f.LearnRate*predicted
 		f.Pred.Put(i, pred)
 
-- 
2.43.0


From 1af415922598cd429f6560d2606b0380b3db0f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 47/79] fix: gradient boosting of certain cases predicts no
 change instead of NaN

---
 gradboostclasstarget.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gradboostclasstarget.go b/gradboostclasstarget.go
index abc34f0..60bc8cb 100644
--- a/gradboostclasstarget.go
+++ b/gradboostclasstarget.go
@@ -107,6 +107,11 @@ func (f *GradBoostClassTarget) Predicted(cases *[]int) float64 {
 
 	}
 
+	if denom == 0.0 {
+		//all of the cases are already predicted with certainty
+		return 0.0
+	}
+
 	return num / denom // 1.0 / (1.0 + math.Exp(-1*meanlogodds))
 }
 
-- 
2.43.0


From 52439c49b74b49c7f1b5e4c661b1747a0cd8ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 48/79] fix: growforest grows no more trees than requested on
 many cores

---
 growforest/growforest.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 4f3ae28..e19a795 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -204,6 +204,10 @@ func main() {
 	if boost && !multiboost {
 		nCores = 1
 	}
+	if nCores > nTrees {
+		//each core grows at least one tree
+		nCores = nTrees
+	}
 
 	if nCores > 1 {
 
-- 
2.43.0


From 9d6b484c808daeda8130e67007c8c322cb2328aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 49/79] fix: growforest tests its last trees as they were grown

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index e19a795..8ca1d3f 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -717,7 +717,7 @@ func main() {
 					if dotest && foresti == nForest-1 {
 						trees = append(trees, tree)
 
-						if treesStarted < nTrees-1 {
+						if treesStarted < nTrees {
 							//newtree := new(CloudForest.Tree)
 							tree = CloudForest.NewTree()
 							tree.Target = *targetname
-- 
2.43.0


From a5c66ab4d9526c5e83af5285dda615c9cad208bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 50/79] fix: growforest numbers the trees it saves

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 8ca1d3f..d3d4e2b 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -723,8 +723,8 @@ func main() {
 							tree.Target = *targetname
 						}
 					}
+					treesFinished++
 					if progress {
-						treesFinished++
 						fmt.Printf("Model oob error after tree %v : %v\n", treesFinished, oobVotes.TallyError(unboostedTarget))
 					}
 					if treesStarted < nTrees {
-- 
2.43.0


From 7dc6644481fddd910c9acf6f4c1f85ceacf4521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 51/79] fix: growforest can vet on more out of bag cases than
 it samples

---
 growforest/growforest.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index d3d4e2b..22b9dba 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -620,7 +620,12 @@ func main() {
 					depthUsed = &du
 				}
 
-				allocs := CloudForest.NewBestSplitAllocs(nSamples, targetf)
+				//the samples or the out of bag cases are searched
+				nAlloc := nSamples
+				if nAlloc < targetf.Length() {
+					nAlloc = targetf.Length()
+				}
+				allocs := CloudForest.NewBestSplitAllocs(nAlloc, targetf)
 				for {
 					nCases := data.Data[0].Length()
 					//sample nCases case with replacement
-- 
2.43.0


From ac7547cd6cb28a221d660ded67d612036ac55a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 52/79] fix: growforest -nobag trains on all cases with a known
 target

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 22b9dba..24c24e5 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -607,7 +607,7 @@ func main() {
 				oobcases := make([]int, 0, nNonMissing)
 
 				if nobag {
-					for i := 0; i < nNonMissing; i++ {
+					for i := 0; i < targetf.Length(); i++ {
 						if !targetf.IsMissing(i) {
 							cases = append(cases, i)
 						}
-- 
2.43.0


From 13f44835fd9e4dcce596df600b8aa659e5fede66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 53/79] fix: growforest boosts with adaboost costs

---
 growforest/growforest.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 24c24e5..3d9a752 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -200,7 +200,7 @@ func main() {
 		fmt.Println("MULTIBOOST!!!!1!!!!1!!11 (things may break).")
 	}
 	var boostMutex sync.Mutex
-	boost := (adaboost || gradboost != 0.0)
+	boost := (adaboost || gradboost != 0.0 || *adacosts != "")
 	if boost && !multiboost {
 		nCores = 1
 	}
@@ -689,7 +689,9 @@ func main() {
 					if boost {
 						boostMutex.Lock()
 						ls, ps := tree.Partition(data)
-						weight = targetf.(CloudForest.BoostingTarget).Boost(ls, ps)
+						if bt, ok := targetf.(CloudForest.BoostingTarget); ok {
+							weight = bt.Boost(ls, ps)
+						}
 						boostMutex.Unlock()
 						if weight == math.Inf(1) {
 							fmt.Printf("Boosting Reached Weight of %v\n", weight)
-- 
2.43.0


From 4a45e7fbff53d4dc469c9f6eebbddef7afb98d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 54/79] fix: growforest reports on test data that lacks a class

---
 growforest/growforest.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 3d9a752..3897e06 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -953,6 +953,13 @@ func main() {
 					nas++
 				} else {
 					predi := testtarget.(*CloudForest.DenseCatFeature).CatToNum(pred)
+					if predi == len(predtotals) {
+						//this class isn't in the test data
+						falsesbypred = append(falsesbypred, 0)
+						predtotals = append(predtotals, 0)
+						truebytrue = append(truebytrue, 0)
+						truetotals = append(truetotals, 0)
+					}
 					predtotals[predi]++
 					if pred == testtarget.GetStr(i) {
 						correct++
-- 
2.43.0


From d564bee32d2740e79a2b5578b090af7060b119d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 55/79] fix: splits at the root count as uses of their feature

---
 growforest/growforest.go | 2 +-
 tree.go                  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 3897e06..62e8bad 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -679,7 +679,7 @@ func main() {
 					if mmdpnt != nil {
 						for i, v := range *depthUsed {
 							if v != 0 {
-								(*mmdpnt)[i].Add(float64(v))
+								(*mmdpnt)[i].Add(float64(v - 1))
 								(*depthUsed)[i] = 0
 							}
 
diff --git a/tree.go b/tree.go
index 22fad65..3c994b3 100644
--- a/tree.go
+++ b/tree.go
@@ -142,8 +142,8 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 				if importance != nil {
 					(*importance)[fi].Add(impDec)
 				}
-				if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
-					(*depthUsed)[fi] = depth
+				if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth+1 < (*depthUsed)[fi]) {
+					(*depthUsed)[fi] = depth + 1 //0 is not used
 				}
 				//not a leaf node so define the splitter and left and right nodes
 				//so recursion will continue
@@ -229,8 +229,8 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					if importance != nil {
 						(*importance)[fi].Add(impDec)
 					}
-					if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
-						(*depthUsed)[fi] = depth
+					if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth+1 < (*depthUsed)[fi]) {
+						(*depthUsed)[fi] = depth + 1 //0 is not used
 					}
 
 					//not a leaf node so define the splitter and left and right nodes
-- 
2.43.0


From 65503d538924d0a6a19c4a143cdc926d26b5de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 56/79] fix: growforest evaluates splits on out of bag cases
 with a known target only

---
 growforest/growforest.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 62e8bad..6a05c58 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -605,6 +605,7 @@ func main() {
 				tree.Target = *targetname
 				cases := make([]int, 0, nNonMissing)
 				oobcases := make([]int, 0, nNonMissing)
+				evalcases := make([]int, 0, nNonMissing) //out of bag cases with a known target
 
 				if nobag {
 					for i := 0; i < targetf.Length(); i++ {
@@ -663,18 +664,22 @@ func main() {
 							ibcases[v] = true
 						}
 						oobcases = oobcases[0:0]
+						evalcases = evalcases[0:0]
 						for i, v := range ibcases {
 							if !v {
 								oobcases = append(oobcases, i)
+								if !targetf.IsMissing(i) {
+									evalcases = append(evalcases, i)
+								}
 							}
 						}
 					}
 
 					if jungle {
-						tree.GrowJungle(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
+						tree.GrowJungle(data, target, cases, canidates, evalcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
 
 					} else {
-						tree.Grow(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
+						tree.Grow(data, target, cases, canidates, evalcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
 					}
 					if mmdpnt != nil {
 						for i, v := range *depthUsed {
-- 
2.43.0


From 7f3ef983c4b93e45af35769a6dfa08865a15c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 57/79] fix: leafcount threads record splits one at a time

---
 leafcount/leafcount.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/leafcount/leafcount.go b/leafcount/leafcount.go
index b32a58f..1b35638 100644
--- a/leafcount/leafcount.go
+++ b/leafcount/leafcount.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"runtime"
 	"strings"
+	"sync"
 )
 
 func main() {
@@ -23,6 +24,7 @@ func main() {
 	flag.Parse()
 
 	splits := make(map[string][]string)
+	var splitsMutex sync.Mutex
 
 	//Parse Data
 	data, err := CloudForest.LoadAFM(*fm)
@@ -85,6 +87,8 @@ func main() {
 					if *soutf != "" {
 						forest.Trees[i].Root.Climb(func(n *CloudForest.Node) {
 							if n.Splitter != nil {
+								splitsMutex.Lock()
+								defer splitsMutex.Unlock()
 								name := n.Splitter.Feature
 								_, ok := splits[name]
 								if !ok {
-- 
2.43.0


From 55e1e8101341a4372e6b2ad1e8dd4daec8c99947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 58/79] fix: nfold puts every case in a fold

---
 utils/nfold/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index e775ed6..dbc9168 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -189,7 +189,7 @@ func main() {
 		}
 		CloudForest.SampleFirstN(&cases, nil, len(cases), 0)
 		for j := 0; j < folds; j++ {
-			for k := j * foldsize; k < (j+1)*foldsize; k++ {
+			for k := j * ncases / folds; k < (j+1)*ncases/folds; k++ {
 				foldis[j] = append(foldis[j], cases[k])
 			}
 		}
@@ -205,9 +205,9 @@ func main() {
 			fmt.Printf("%v cases in class %v.\n", len(bSampler.Cases[i]), i)
 			//shuffle in place
 			CloudForest.SampleFirstN(&bSampler.Cases[i], &samples, len(bSampler.Cases[i]), 0)
-			stratFoldSize := len(bSampler.Cases[i]) / folds
+			nclass := len(bSampler.Cases[i])
 			for j := 0; j < folds; j++ {
-				for k := j * stratFoldSize; k < (j+1)*stratFoldSize; k++ {
+				for k := j * nclass / folds; k < (j+1)*nclass/folds; k++ {
 					foldis[j] = append(foldis[j], bSampler.Cases[i][k])
 
 				}
-- 
2.43.0


From c376c2b68ef7e0962d25ab0321de9474e78923de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 59/79] fix: nfold keeps the target of libsvm files when it
 encodes features

---
 utils/nfold/main.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index dbc9168..e54f638 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -215,19 +215,6 @@ func main() {
 
 		}
 	}
-	encode := false
-
-	for _, f := range data.Data {
-		if f.NCats() > 0 {
-			encode = true
-		}
-	}
-
-	encoded := data
-	if encode && (writelibsvm || writeall) {
-		encoded = data.EncodeToNum()
-	}
-
 	trainis := make([]int, 0, foldsize*(folds-1))
 	//Write training and testing matrixes
 	for i := 0; i < folds; i++ {
@@ -256,8 +243,8 @@ func main() {
 
 		if writelibsvm || writeall {
 			trainW, testW := openfiles(trainfn+".libsvm", testfn+".libsvm")
-			CloudForest.WriteLibSvmCases(encoded, foldis[i], *targetname, testW)
-			CloudForest.WriteLibSvmCases(encoded, trainis, *targetname, trainW)
+			CloudForest.WriteLibSvmCases(data, foldis[i], *targetname, testW)
+			CloudForest.WriteLibSvmCases(data, trainis, *targetname, trainW)
 		}
 
 		fmt.Printf("Wrote fold %v. %v testing cases and %v training cases.\n", i, len(foldis[i]), len(trainis))
-- 
2.43.0


From 94303d6aebe5cf2491a888aadf6ce0141bff28f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 60/79] fix: nfold encodes the features but not the target

---
 utils/nfold/main.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index e54f638..bcaf3fc 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -147,12 +147,27 @@ func main() {
 
 	if onehot {
 		fmt.Println("OneHot encoding.")
-		data.OneHot()
 	}
-
 	if num {
 		fmt.Println("Numerical OneHot encoding.")
-		data = data.EncodeToNum()
+	}
+	if onehot || num {
+		encoded := &CloudForest.FeatureMatrix{make([]CloudForest.Feature, 0, len(data.Data)), make(map[string]int), data.CaseLabels}
+		for _, f := range data.Data {
+			fm := &CloudForest.FeatureMatrix{[]CloudForest.Feature{f}, nil, data.CaseLabels}
+			//the target itself isn't encoded
+			if onehot && f.GetName() != *targetname {
+				fm = fm.OneHot()
+			}
+			if num && f.GetName() != *targetname {
+				fm = fm.EncodeToNum()
+			}
+			for _, ef := range fm.Data {
+				encoded.Map[ef.GetName()] = len(encoded.Data)
+				encoded.Data = append(encoded.Data, ef)
+			}
+		}
+		data = encoded
 	}
 
 	foldis := make([][]int, 0, folds)
-- 
2.43.0


From 3661546ce4f404b13ae0e5d6c7bb5c4bac351129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 61/79] fix: applyforest sums the votes of forests with an
 intercept

---
 applyforest/applyforest.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index 24689d2..afffae6 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -55,6 +55,11 @@ func main() {
 		defer predfile.Close()
 	}
 
+	if forest.Intercept != 0.0 && !num && !cat {
+		//only additive forests have an intercept
+		sum = true
+	}
+
 	var bb CloudForest.VoteTallyer
 	switch {
 	case sum:
@@ -87,12 +92,13 @@ func main() {
 
 			result := ""
 
-			if sum || forest.Intercept != 0.0 {
+			numbb, isnum := bb.(*CloudForest.NumBallotBox)
+			if sum || (isnum && forest.Intercept != 0.0) {
 				numresult := 0.0
 				if sum {
 					numresult = bb.(*CloudForest.SumBallotBox).TallyNum(i) + forest.Intercept
 				} else {
-					numresult = bb.(*CloudForest.NumBallotBox).TallyNum(i) + forest.Intercept
+					numresult = numbb.TallyNum(i) + forest.Intercept
 				}
 				if expit {
 					numresult = CloudForest.Expit(numresult)
-- 
2.43.0


From e176c8714b57b678b7d048e44a5788c1d83ad219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 62/79] fix: growforest's test report leaves cases without a
 class alone

Cases whose class is unknown counted as wrongly classified members of the
first class.
---
 growforest/growforest.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 6a05c58..82f7db9 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -949,8 +949,12 @@ func main() {
 
 			correct := 0
 			nas := 0
-			length := testtarget.Length()
-			for i := 0; i < length; i++ {
+			length := 0
+			for i := 0; i < testtarget.Length(); i++ {
+				if testtarget.IsMissing(i) {
+					continue
+				}
+				length++
 				truei := testtarget.(*CloudForest.DenseCatFeature).Geti(i)
 				truetotals[truei]++
 				pred := bb.Tally(i)
-- 
2.43.0


From f530ac8a689335ffd82e57d50875ad40d6056c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 63/79] fix: growforest -noseed runs alike with newer versions
 of go

The generator seeds itself since go 1.20, so runs with -noseed differed.
---
 growforest/growforest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 82f7db9..188f5e8 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -190,6 +190,9 @@ func main() {
 
 	if !noseed {
 		rand.Seed(time.Now().UTC().UnixNano())
+	} else {
+		//newer versions of go seed the generator themselves unless told not to
+		os.Setenv("GODEBUG", os.Getenv("GODEBUG")+",randautoseed=0")
 	}
 
 	if testfm != "" {
-- 
2.43.0


From 1365421365b06b63d9bc9e12f00df41c2af6e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 64/79] fix: tied votes always tally to the same category

Which of several tied categories won depended on the order of a map, so two
tallies of the same votes, or two runs with the same seed, could differ.
---
 catballotbox.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/catballotbox.go b/catballotbox.go
index 480a74d..54744f7 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -59,7 +59,8 @@ func (bb *CatBallotBox) Tally(i int) (predicted string) {
 	votes := 0.0
 	bb.Box[i].Mutex.Lock()
 	for k, v := range bb.Box[i].Map {
-		if v > votes {
+		//the first of tied categories wins: map order differs from run to run
+		if v > votes || (v == votes && v > 0 && k < predictedn) {
 			predictedn = k
 			votes = v
 
-- 
2.43.0


From 08a5a1d2c5d447b9124e34103500c6b356111d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 65/79] fix: writing libsvm cases encodes categorical features
 without any values

---
 libsvm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsvm.go b/libsvm.go
index 789e028..0208da6 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -163,7 +163,7 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 	encode := false
 	for i, f := range data.Data {
 		if i != targeti {
-			if data.Data[i].NCats() > 0 {
+			if _, ok := f.(CatFeature); ok {
 				encode = true
 			}
 			noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)
-- 
2.43.0


From 6122043e1d77488411ba475dc06d6e02a0e73e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 66/79] fix: encoded matrices look up features after repeated
 names correctly

---
 featurematrix.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index ac3ede6..5e3a1b1 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -68,12 +68,12 @@ func (fm *FeatureMatrix) EncodeToNum() *FeatureMatrix {
 	for _, f := range fm.Data {
 		switch f.(type) {
 		case NumFeature:
-			out.Map[f.GetName()] = len(out.Map)
+			out.Map[f.GetName()] = len(out.Data)
 			out.Data = append(out.Data, f)
 		case CatFeature:
 			fns := f.(CatFeature).EncodeToNum()
 			for _, fn := range fns {
-				out.Map[fn.GetName()] = len(out.Map)
+				out.Map[fn.GetName()] = len(out.Data)
 				out.Data = append(out.Data, fn)
 			}
 		}
@@ -89,12 +89,12 @@ func (fm *FeatureMatrix) OneHot() *FeatureMatrix {
 	for _, f := range fm.Data {
 		switch f.(type) {
 		case NumFeature:
-			out.Map[f.GetName()] = len(out.Map)
+			out.Map[f.GetName()] = len(out.Data)
 			out.Data = append(out.Data, f)
 		case CatFeature:
 			fns := f.(CatFeature).OneHot()
 			for _, fn := range fns {
-				out.Map[fn.GetName()] = len(out.Map)
+				out.Map[fn.GetName()] = len(out.Data)
 				out.Data = append(out.Data, fn)
 			}
 		}
-- 
2.43.0


From a5eab9f36ae9d301714c28410aef45d2b6a3c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 67/79] fix: a blacklisted target no longer counts against the
 number of features

---
 growforest/growforest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 188f5e8..89eedb4 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -282,6 +282,11 @@ func main() {
 		log.Fatal("Target not found in data.")
 	}
 
+	if blacklistis[targeti] {
+		//the target is never a candidate and counted by itself below
+		blacklisted -= 1
+	}
+
 	if blockRE != "" {
 		re := regexp.MustCompile(blockRE)
 		for i, feature := range data.Data {
-- 
2.43.0


From e367725a8ae7ed5cad5fb4d05271ba23af554cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 68/79] fix: blacklisting a name blacklists every contrast of
 that name

---
 growforest/growforest.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 89eedb4..262d545 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -253,6 +253,7 @@ func main() {
 		}
 		tsv := csv.NewReader(blackfile)
 		tsv.Comma = '\t'
+		blacknames := make(map[string]bool)
 		for {
 			id, err := tsv.Read()
 			if err == io.EOF {
@@ -260,18 +261,23 @@ func main() {
 			} else if err != nil {
 				log.Fatal(err)
 			}
-			i, ok := data.Map[id[0]]
+			_, ok := data.Map[id[0]]
 			if !ok {
 				fmt.Printf("Ignoring blacklist feature not found in data: %v\n", id[0])
 				continue
 			}
-			if !blacklistis[i] {
+			blacknames[id[0]] = true
+
+		}
+		blackfile.Close()
+
+		//several contrasts may share a name
+		for i, feature := range data.Data {
+			if blacknames[feature.GetName()] {
 				blacklisted += 1
 				blacklistis[i] = true
 			}
-
 		}
-		blackfile.Close()
 
 	}
 
-- 
2.43.0


From 9fc4b959fd5297ba87fbdb12bfb65185e49cc3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 69/79] fix: values with tabs, quotes or newlines are quoted
 when an AFM is written

---
 featurematrix.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index 5e3a1b1..1a3daeb 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -106,12 +106,16 @@ func (fm *FeatureMatrix) OneHot() *FeatureMatrix {
 func (fm *FeatureMatrix) WriteCases(w io.Writer, cases []int) (err error) {
 	vals := make([]string, 0, len(cases)+1)
 
+	//values holding tabs, quotes or newlines are quoted
+	tsv := csv.NewWriter(w)
+	tsv.Comma = '\t'
+
 	//print header
 	vals = append(vals, ".")
 	for i := 0; i < len(cases); i++ {
 		vals = append(vals, fm.CaseLabels[cases[i]])
 	}
-	_, err = fmt.Fprintln(w, strings.Join(vals, "\t"))
+	err = tsv.Write(vals)
 	if err != nil {
 		return
 	}
@@ -123,14 +127,15 @@ func (fm *FeatureMatrix) WriteCases(w io.Writer, cases []int) (err error) {
 			vals = append(vals, fm.Data[i].GetStr(cases[j]))
 		}
 
-		_, err = fmt.Fprintln(w, strings.Join(vals, "\t"))
+		err = tsv.Write(vals)
 		if err != nil {
 			return
 		}
 
 	}
 
-	return
+	tsv.Flush()
+	return tsv.Error()
 
 }
 
-- 
2.43.0


From c0c799f0e58411526d2759c4bb7c8fecb6ef8241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 70/79] fix: numerical libSVM targets are written so that they
 read back as numbers

---
 libsvm.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libsvm.go b/libsvm.go
index 0208da6..36a59ec 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -100,6 +100,20 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 
 }
 
+//svmNumTarget formats a value of a numerical target so that it always contains the
+//decimal point ParseLibSVM tells numerical from categorical targets by.
+//Missing values stay missing.
+func svmNumTarget(target Feature, i int) string {
+	if target.IsMissing(i) {
+		return target.GetStr(i)
+	}
+	v := strconv.FormatFloat(target.(NumFeature).Get(i), 'f', -1, 64)
+	if !strings.Contains(v, ".") {
+		v += ".0"
+	}
+	return v
+}
+
 func WriteLibSvm(data *FeatureMatrix, targetn string, outfile io.Writer) error {
 	targeti, ok := data.Map[targetn]
 	if !ok {
@@ -129,7 +143,7 @@ func WriteLibSvm(data *FeatureMatrix, targetn string, outfile io.Writer) error {
 		entries := make([]string, 0, 10)
 		switch target.(type) {
 		case NumFeature:
-			entries = append(entries, target.GetStr(i))
+			entries = append(entries, svmNumTarget(target, i))
 		case CatFeature:
 			entries = append(entries, fmt.Sprintf("%v", target.(CatFeature).Geti(i)))
 		}
@@ -186,7 +200,7 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 		entries := make([]string, 0, 10)
 		switch target.(type) {
 		case NumFeature:
-			entries = append(entries, fmt.Sprintf("%g", target.(NumFeature).Get(i)))
+			entries = append(entries, svmNumTarget(target, i))
 		case CatFeature:
 			entries = append(entries, fmt.Sprintf("%v", target.(CatFeature).Geti(i)))
 		}
-- 
2.43.0


From c19c9a8454200f45f71efb5c1d8962b0ecd4440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 71/79] fix: ARFF feature names with spaces are quoted, and
 read back

---
 arff.go | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/arff.go b/arff.go
index ac6a89e..d959336 100644
--- a/arff.go
+++ b/arff.go
@@ -35,14 +35,12 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 		}
 
 		if strings.HasPrefix(norm, "@attribute") {
-			vals := strings.Fields(line)
-
-			ftype := strings.ToLower(vals[2])
+			name, ftype := parseArffAttribute(line)
 			if ftype == "numeric" || ftype == "real" || ftype == "integer" {
 				data = append(data, &DenseNumFeature{
 					make([]float64, 0, 0),
 					make([]bool, 0, 0),
-					vals[1],
+					name,
 					false})
 			} else {
 				data = append(data, &DenseCatFeature{
@@ -50,13 +48,13 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 						make([]string, 0, 0)},
 					make([]int, 0, 0),
 					make([]bool, 0, 0),
-					vals[1],
+					name,
 					false,
 					false})
 			}
 
-			lookup[vals[1]] = i
-			//labels = append(labels, vals[1])
+			lookup[name] = i
+			//labels = append(labels, name)
 			i++
 		}
 
@@ -74,6 +72,35 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 
 }
 
+//parseArffAttribute returns the name and lower case type of an attribute declaration. A name
+//may be enclosed in single or double quotes.
+func parseArffAttribute(line string) (name string, ftype string) {
+	rest := strings.TrimSpace(line[len("@attribute"):])
+	if quote := rest[0]; quote == '\'' || quote == '"' {
+		i := 1
+		for ; i < len(rest) && rest[i] != quote; i++ {
+			if rest[i] == '\\' && i+1 < len(rest) {
+				i++
+			}
+			name += rest[i : i+1]
+		}
+		if i < len(rest) {
+			return name, strings.ToLower(strings.Fields(rest[i+1:])[0])
+		}
+	}
+	vals := strings.Fields(rest)
+	return vals[0], strings.ToLower(vals[1])
+}
+
+//arffName quotes names that can't be written as they are in an attribute declaration.
+func arffName(name string) string {
+	if name != "" && !strings.ContainsAny(name, " \t") && name[0] != '\'' && name[0] != '"' {
+		return name
+	}
+	name = strings.Replace(name, "\\", "\\\\", -1)
+	return "'" + strings.Replace(name, "'", "\\'", -1) + "'"
+}
+
 //WriteArffCases writes the specified cases from the provied feature matrix into an arff file with the given relation string.
 func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile io.Writer) error {
 	/*@RELATION iris
@@ -90,7 +117,7 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 			ftype = fmt.Sprintf("{%v}", strings.Join(f.(*DenseCatFeature).Back, ","))
 		}
 
-		fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", f.GetName(), ftype)
+		fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", arffName(f.GetName()), ftype)
 	}
 
 	fmt.Fprint(outfile, "\n@DATA\n")
-- 
2.43.0


From fa9e33e5ded85dbdbd969a710a2212838badd597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 72/79] fix: an ARFF line starting with a percent sign is no
 comment

---
 arff.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/arff.go b/arff.go
index d959336..2d0b56e 100644
--- a/arff.go
+++ b/arff.go
@@ -137,6 +137,17 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 
 		}
 		//fmt.Println(entries)
+		if len(entries) > 0 && strings.HasPrefix(entries[0], "%") {
+			//quoted by hand, as the line would be taken for a comment
+			oucsv.Flush()
+			fmt.Fprintf(outfile, "\"%v\"", strings.Replace(entries[0], "\"", "\"\"", -1))
+			if len(entries) == 1 {
+				fmt.Fprintln(outfile)
+				continue
+			}
+			fmt.Fprint(outfile, ",")
+			entries = entries[1:]
+		}
 		err := oucsv.Write(entries)
 		if err != nil {
 			return err
-- 
2.43.0


From 270c21fbc64ebc4789fa8226e7b61f0be343a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 73/79] fix: toafm writes a matrix that has no features left

---
 utils/toafm/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/toafm/main.go b/utils/toafm/main.go
index d77d3f5..cb7c2e6 100644
--- a/utils/toafm/main.go
+++ b/utils/toafm/main.go
@@ -105,7 +105,7 @@ func main() {
 		}
 	}
 
-	ncases := data.Data[0].Length()
+	ncases := len(data.CaseLabels)
 	cases := make([]int, ncases, ncases)
 
 	for i := 0; i < ncases; i++ {
-- 
2.43.0


From b6efe917b5ac44ab4cf6bfb4bf3d4d61512e29ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 74/79] verif: growforest -ace tells a build with the tag verif
 its importances and contrasts

---
 growforest/growforest.go |  1 +
 growforest/verif_off.go  |  9 +++++++
 growforest/verif_on.go   | 51 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 61 insertions(+)
 create mode 100644 growforest/verif_off.go
 create mode 100644 growforest/verif_on.go

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 262d545..c1410dd 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -820,6 +820,7 @@ func main() {
 				mean, count := (*imppnt)[i].Read()
 				aceImps[i][foresti] = mean * float64(count) / float64(nTrees)
 			}
+			verifAce(foresti, aceImps, data, firstace)
 
 			//Reset importance scores
 			imppnt = CloudForest.NewRunningMeans(len(data.Data))
diff --git a/growforest/verif_off.go b/growforest/verif_off.go
new file mode 100644
index 0000000..c4c60a0
--- /dev/null
+++ b/growforest/verif_off.go
@@ -0,0 +1,9 @@
+//go:build !verif
+// +build !verif
+
+package main
+
+import "github.com/ryanbressler/CloudForest"
+
+// verifAce does nothing: see verif_on.go
+func verifAce(foresti int, imps [][]float64, data *CloudForest.FeatureMatrix, firstace int) {}
diff --git a/growforest/verif_on.go b/growforest/verif_on.go
new file mode 100644
index 0000000..b5ab2a5
--- /dev/null
+++ b/growforest/verif_on.go
@@ -0,0 +1,51 @@
+//go:build verif
+// +build verif
+
+package main
+
+import (
+	"encoding/json"
+	"math/big"
+	"os"
+
+	"github.com/ryanbressler/CloudForest"
+)
+
+// verifAce appends what an ACE forest left behind to the file named by VERIF_ACE: the importance
+// of every feature and contrast in it and the values of the contrasts it was grown with.
+func verifAce(foresti int, imps [][]float64, data *CloudForest.FeatureMatrix, firstace int) {
+	path := os.Getenv("VERIF_ACE")
+	if path == "" {
+		return
+	}
+	file, err := os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+	if err != nil {
+		panic(err)
+	}
+	defer file.Close()
+	rec := struct {
+		Imps  []string
+		Names []string
+		Fakes [][]string
+	}{}
+	for _, imp := range imps {
+		x := "nan"
+		if r := new(big.Rat).SetFloat64(imp[foresti]); r != nil {
+			x = r.RatString()
+		}
+		rec.Imps = append(rec.Imps, x)
+	}
+	for i, f := range data.Data {
+		rec.Names = append(rec.Names, f.GetName())
+		if i >= firstace {
+			cells := make([]string, f.Length())
+			for c := range cells {
+				cells[c] = f.GetStr(c)
+			}
+			rec.Fakes = append(rec.Fakes, cells)
+		}
+	}
+	if err := json.NewEncoder(file).Encode(rec); err != nil {
+		panic(err)
+	}
+}
-- 
2.43.0


From 21c54af6488f9ca8297b4f2490330f5da86a0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 75/79] fix: sample variances keep their digits when values are
 far from zero

---
 stats/stats.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stats/stats.go b/stats/stats.go
index 240c39d..353d1cc 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -12,11 +12,13 @@ import (
 func MeanAndVar(X *[]float64) (m, v, n float64) {
 	for _, x := range *X {
 		m += x
-		v += x * x
 	}
 	n = float64(len(*X))
 	m /= n
-	v -= n * m * m
+	//the sum of squares less n * m * m would lose all digits of values far from zero
+	for _, x := range *X {
+		v += (x - m) * (x - m)
+	}
 	v /= (n - 1.0)
 	return
 }
-- 
2.43.0


From d524d16fcfdce6a8e03b7b4b98dc010b694d8aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:49 +0000
Subject: [PATCH 76/79] fix: the scikit export holds only the forest that is
 saved

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index c1410dd..04623e3 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -734,7 +734,7 @@ func main() {
 						forestwriter.WriteTree(tree, treesFinished)
 					}
 
-					if scikitforest != "" {
+					if scikitforest != "" && foresti == nForest-1 {
 						skt := CloudForest.NewScikitTree(nFeatures)
 						CloudForest.BuildScikitTree(0, tree.Root, skt)
 						scikikittrees = append(scikikittrees, *skt)
-- 
2.43.0


From 04b5310a6228e7c68007c1ace1fcd22a9506c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 77/79] fix: boosting a handful of cases has a minimum leaf
 size of at least one

---
 growforest/growforest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 04623e3..f62dd16 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -385,6 +385,9 @@ func main() {
 	if leafSize <= 0 {
 		if boost {
 			leafSize = nNonMissing / 3
+			if leafSize < 1 {
+				leafSize = 1
+			}
 		} else if targetf.NCats() == 0 {
 			//regression
 			leafSize = 4
-- 
2.43.0


From a502adf0441c973ef0c567566e2817de1366f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:30 +0000
Subject: [PATCH 78/79] fix: out of bag evaluation scores splits of targets
 that score them

---
 featurematrix.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 1a3daeb..5832057 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -230,7 +230,12 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 		if evaloob && inerImp > impurityDecrease {
 			//spliter := f.DecodeSplit(split)
 			l, r, m := f.Split(split, *oob) //spliter.Split(fm, *oob)
-			inerImp = target.Impurity(oob, allocs.Counter) - target.SplitImpurity(&l, &r, &m, allocs)
+			if parentImp < 0 {
+				//the target scores splits instead of measuring impurity
+				inerImp = target.SplitImpurity(&l, &r, nil, allocs) * float64(len(l)+len(r)) / float64(len(*oob))
+			} else {
+				inerImp = target.Impurity(oob, allocs.Counter) - target.SplitImpurity(&l, &r, &m, allocs)
+			}
 		}
 
 		if vet && inerImp > impurityDecrease {
-- 
2.43.0


From a00cd399d1f5283cdfb4c2d16b47a59b8f11298c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:34:53 +0000
Subject: [PATCH 79/79] fix: data without a feature holds no value of it

---
 splitter.go | 7 ++++++-
 tree.go     | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/splitter.go b/splitter.go
index bffa051..4f371b2 100644
--- a/splitter.go
+++ b/splitter.go
@@ -28,7 +28,12 @@ func (s *Splitter) Split(fm *FeatureMatrix, cases []int) (l []int, r []int, m []
 	lastright := length
 	swaper := 0
 
-	f := fm.Data[fm.Map[s.Feature]]
+	fi, ok := fm.Map[s.Feature]
+	if !ok {
+		//data without the feature holds no value of it for any case
+		return cases[:0], cases[length:], cases
+	}
+	f := fm.Data[fi]
 
 	//Move left cases to the start and right cases to the end so that missing cases end up
 	//in between.
diff --git a/tree.go b/tree.go
index 3c994b3..5131b53 100644
--- a/tree.go
+++ b/tree.go
@@ -360,8 +360,10 @@ func (t *Tree) GetLeaves(fm *FeatureMatrix, fbycase *SparseCounter) []Leaf {
 			leaves = append(leaves, Leaf{cases, n.Pred})
 		}
 		if fbycase != nil && n.Splitter != nil { //I'm not in a leaf node?
-			for _, c := range cases {
-				fbycase.Add(c, fm.Map[n.Splitter.Feature], 1)
+			if fi, ok := fm.Map[n.Splitter.Feature]; ok {
+				for _, c := range cases {
+					fbycase.Add(c, fi, 1)
+				}
 			}
 		}
 
-- 
2.43.0

