From a3afea97f358f3b097dfc82cf5c882228e7ba662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 01/49] fix: numeric split search never tried the split leaving
 exactly leafSize cases on the right

---
 densenumfeature.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 7294078..64f3d1f 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -304,7 +304,8 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 		lastsplit := 0
 		var innerimp float64
-		stop := (ncases - leafSize)
+		//the last split to try leaves exactly leafSize cases on the right
+		stop := (ncases - leafSize) + 1
 		constant = (sortedData[0] + constant_cutoff) >= sortedData[ncases-1]
 		if constant {
 			impurityDecrease = minImp
-- 
2.43.0


From d2ff205972293ae9d92f9f069bcaf27a91bbf17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 02/49] fix: numeric split threshold could fall on the wrong
 side of a case (near ties, rounding, overflow)

---
 densenumfeature.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 64f3d1f..183a3ce 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -356,9 +356,13 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 			if innerimp > impurityDecrease {
 				impurityDecrease = innerimp
-				splitf = sortedData[lasti]
+				splitf = sortedData[i-1]
 				splitf += sortedData[i]
 				splitf /= 2.0
+				//rounding and overflow must not move the threshold past either case
+				if !(splitf >= sortedData[i-1] && splitf < sortedData[i]) {
+					splitf = sortedData[i-1]
+				}
 				//fmt.Println(len(sorter.Cases), sorter.Vals, allocs.LM, allocs.RM, codedSplit, impurityDecrease)
 
 			}
-- 
2.43.0


From f3b481e49d6f0163ad3c4ca8c544eab56fe18a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 03/49] fix: DEntropyTarget scored nodes without its costs
 while the incremental update used them

---
 dentropytarget.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/dentropytarget.go b/dentropytarget.go
index ace7e78..67302a1 100644
--- a/dentropytarget.go
+++ b/dentropytarget.go
@@ -117,17 +117,8 @@ func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 //is the number of cases with the j'th category over the total number of cases.
 func (target *DEntropyTarget) Impurity(cases *[]int, counts *[]int) (e float64) {
 
-	total := len(*cases)
 	target.CountPerCat(cases, counts)
-
-	p := 0.0
-	for _, i := range *counts {
-		if i > 0 {
-			p = float64(i) / float64(total)
-			e -= p * math.Log(p)
-		}
-
-	}
+	e = target.ImpFromCounts(len(*cases), counts)
 
 	return
 
-- 
2.43.0


From 08122475109f9e2429753bc98a5b50207d84be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:39 +0000
Subject: [PATCH 04/49] fix: searching more candidates than there are indexed
 past the list or set aside a feature that is not constant

---
 featurematrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index 282b651..4aca6d3 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -189,8 +189,8 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 	//haven't looked at mTry features
 	for j := 0; (force && j >= mTry && j <= nDrawnConstants) || j < mTry; j++ {
 
-		//Break early if there aren't any more nonconstant features
-		if nConstants >= lcans {
+		//Break early if there aren't any more nonconstant features or every candidate has been drawn
+		if nConstants >= lcans || nDrawnConstants+lastSample >= lcans {
 			return
 		}
 
-- 
2.43.0


From 2f9f3fe4a36090e357c6ebbc3792224c6f0a030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 05/49] fix: DenseNumFeature.Span was always zero

---
 densenumfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densenumfeature.go b/densenumfeature.go
index 183a3ce..5c1bf12 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -565,6 +565,7 @@ func (f *DenseNumFeature) Span(cases *[]int, counter *[]int) (span float64) {
 			if first {
 				min = val
 				max = val
+				first = false
 				continue
 			}
 			switch {
-- 
2.43.0


From d35c7001b5933d01e12fa76f70a45754ce683865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 06/49] fix: RegretTarget counted every case twice when
 averaging misclassification costs

---
 regrettarget.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regrettarget.go b/regrettarget.go
index 68b160a..2a24949 100644
--- a/regrettarget.go
+++ b/regrettarget.go
@@ -123,7 +123,6 @@ func (target *RegretTarget) ImpFromCounts(t int, counter *[]int) (e float64) {
 
 	for cat, count := range *counter {
 
-		t += count
 		if cat != mi {
 			e += target.Costs[cat] * float64(count)
 		}
-- 
2.43.0


From daa5873925b22aada78d46d0b661309c88c2b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:06 +0000
Subject: [PATCH 07/49] fix: growing a tree again left children of the earlier
 growth on its leaves

---
 tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree.go b/tree.go
index c01f024..fac0e3d 100644
--- a/tree.go
+++ b/tree.go
@@ -156,6 +156,7 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 					n.Left = new(Node)
 					n.Right = new(Node)
 				}
+				n.Missing = nil
 				if splitmissing {
 					n.Missing = new(Node)
 				}
@@ -169,6 +170,7 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 		split = nil
 		n.CodedSplit = nil
 		n.Splitter = nil
+		n.Left, n.Right, n.Missing = nil, nil, nil
 		n.Pred = target.FindPredicted(*innercases)
 		return
 
@@ -246,6 +248,7 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					n.Right = new(Node)
 					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, nconstants, n, false})
 
+					n.Missing = nil
 					if splitmissing {
 						n.Missing = new(Node)
 						if li != ri {
@@ -262,6 +265,7 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 			split = nil
 			n.CodedSplit = nil
 			n.Splitter = nil
+			n.Left, n.Right, n.Missing = nil, nil, nil
 			n.Pred = target.FindPredicted(innercases)
 			continue
 
-- 
2.43.0


From f50046e714342822ba39be0b1c7dcef4577c0c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 08/49] fix: missing branches that no training case reached
 predicted an empty string

---
 tree.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index fac0e3d..b7bd0d5 100644
--- a/tree.go
+++ b/tree.go
@@ -158,7 +158,10 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 				}
 				n.Missing = nil
 				if splitmissing {
-					n.Missing = new(Node)
+					//a branch that no training case reaches has nothing to predict
+					if li, ri := fm.Data[fi].SplitPoints(split, innercases); li != ri {
+						n.Missing = new(Node)
+					}
 				}
 				return
 			}
@@ -250,8 +253,8 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 
 					n.Missing = nil
 					if splitmissing {
-						n.Missing = new(Node)
 						if li != ri {
+							n.Missing = new(Node)
 							nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, nconstants, n, false})
 						}
 					}
-- 
2.43.0


From 44f9bd7fcbe6ee1969a062902c900f70cffc034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 09/49] fix: recombined jungle nodes lost the cases of the node
 they absorbed

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index b7bd0d5..983e685 100644
--- a/tree.go
+++ b/tree.go
@@ -317,7 +317,7 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					madeChanges = true
 					nodes[combine].dead = true
 					nj := nodes[combine]
-					nodei.end = nj.end
+					nodes[i].end = nj.end
 					parent := nj.parent
 					switch nj.n {
 					case parent.Left:
-- 
2.43.0


From faa1b7dc4ba6076a921dc321bded69951ff68dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 10/49] fix: write a node's missing branch instead of its right
 branch again

---
 forestwriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestwriter.go b/forestwriter.go
index 8009459..59a8ebd 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -68,7 +68,7 @@ func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
 		fw.WriteNodeAndChildren(n.Right, path+"R")
 	}
 	if n.Splitter != nil && n.Missing != nil {
-		fw.WriteNodeAndChildren(n.Right, path+"M")
+		fw.WriteNodeAndChildren(n.Missing, path+"M")
 	}
 
 }
-- 
2.43.0


From 7408da0645759df3b1e7d33bb22eb84c23200d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 11/49] fix: quote feature ids in forest files and keep = , and
 spaces inside of quoted fields when reading

---
 forestreader.go | 45 +++++++++++++++++++++++----------------------
 forestwriter.go | 12 ++++++++++--
 2 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/forestreader.go b/forestreader.go
index a28025a..cf472e1 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -136,7 +136,9 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 
 					splitter.Left = make(map[string]bool)
 					for _, f := range strings.Split(parsed["LVALUES"], ":") {
-						splitter.Left[f] = true
+						if f != "" {
+							splitter.Left[f] = true
+						}
 					}
 
 				case "NUMERICAL":
@@ -161,38 +163,37 @@ ParseRfAcePredictorLine parses a single line of an rf-ace sf "stochastic forest"
 and returns a map[string]string of the key value pairs.
 */
 func (fr *ForestReader) ParseRfAcePredictorLine(line string) map[string]string {
+	line = strings.TrimSpace(line)
 	clauses := make([]string, 0)
-	insidequotes := make([]string, 0)
-	terms := strings.Split(strings.TrimSpace(line), ",")
-	for _, term := range terms {
-		term = strings.TrimSpace(term)
-		quotes := strings.Count(term, "\"")
-		//if quotes have been opend join terms
-		if quotes == 1 || len(insidequotes) > 0 {
-			insidequotes = append(insidequotes, term)
-		} else {
-			//If the term doesn't have an = in it join it to the last term
-			if strings.Count(term, "=") == 0 {
-				clauses[len(clauses)-1] += "," + term
-			} else {
-				clauses = append(clauses, term)
-			}
+	insidequotes := false
+	start := 0
+	for i := 0; i <= len(line); i++ {
+		if i < len(line) && line[i] == '"' {
+			insidequotes = !insidequotes
 		}
-		//quotes were closed
-		if quotes == 1 && len(insidequotes) > 1 {
-			clauses = append(clauses, strings.Join(insidequotes, ","))
-			insidequotes = make([]string, 0)
+		//only commas outside of quotes end a term
+		if i < len(line) && (line[i] != ',' || insidequotes) {
+			continue
+		}
+		term := line[start:i]
+		start = i + 1
+		//If the term doesn't have an = in it join it to the last term
+		if !strings.Contains(term, "=") && len(clauses) > 0 {
+			clauses[len(clauses)-1] += "," + term
+		} else {
+			clauses = append(clauses, term)
 		}
-
 	}
 	parsed := make(map[string]string, 0)
 	for _, clause := range clauses {
-		vs := strings.Split(clause, "=")
+		//values may contain =
+		vs := strings.SplitN(clause, "=", 2)
 		for i, v := range vs {
 			vs[i] = strings.Trim(strings.TrimSpace(v), "\"")
 		}
 		if len(vs) != 2 {
 			fmt.Println("Parser Choked on : \"", line, "\"")
+			continue
 		}
 		parsed[vs[0]] = vs[1]
 	}
diff --git a/forestwriter.go b/forestwriter.go
index 59a8ebd..b1c4236 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -79,11 +79,11 @@ func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
 func (fw *ForestWriter) WriteNode(n *Node, path string) {
 	node := fmt.Sprintf("NODE=%v", path)
 	if n.Pred != "" {
-		node += fmt.Sprintf(",PRED=%v", n.Pred)
+		node += fmt.Sprintf(",PRED=%v", quotePred(n.Pred))
 	}
 
 	if n.Splitter != nil {
-		node += fmt.Sprintf(",SPLITTER=%v", n.Splitter.Feature)
+		node += fmt.Sprintf(",SPLITTER=\"%v\"", n.Splitter.Feature)
 		switch n.Splitter.Numerical {
 		case true:
 			node += fmt.Sprintf(",SPLITTERTYPE=NUMERICAL,LVALUES=%v,RVALUES=%v", n.Splitter.Value, n.Splitter.Value)
@@ -95,6 +95,14 @@ func (fw *ForestWriter) WriteNode(n *Node, path string) {
 	fmt.Fprintln(fw.w, node)
 }
 
+//quotePred puts predictions that could be mistaken for several fields inside of double quotes.
+func quotePred(pred string) string {
+	if strings.ContainsAny(pred, ",=") || strings.TrimSpace(pred) != pred {
+		return "\"" + pred + "\""
+	}
+	return pred
+}
+
 //DescribeMap serializes the "left" map of a categorical splitter.
 func (fw *ForestWriter) DescribeMap(input map[string]bool) string {
 	keys := make([]string, 0)
-- 
2.43.0


From 16844c57c77660bf8187579c70f0c8077d062a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 12/49] fix: read the last line of a forest file that doesn't
 end in a newline

---
 forestreader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index cf472e1..64be48f 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -82,8 +82,9 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 			return
 		}
 
+		//the last line may lack a newline, the next Peek returns io.EOF then
 		line, err = fr.br.ReadString('\n')
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return
 		}
 		parsed := fr.ParseRfAcePredictorLine(line)
-- 
2.43.0


From 0990d887b0128a9ef4a43348b75b651b931e8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 13/49] fix: treat NaN in any letter case as missing in
 numerical features

---
 densenumfeature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 5c1bf12..796444d 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -21,7 +21,7 @@ type DenseNumFeature struct {
 //during data parseing.
 func (f *DenseNumFeature) Append(v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.NumData = append(f.NumData, 0.0)
 		f.Missing = append(f.Missing, true)
 		f.HasMissing = true
@@ -39,7 +39,7 @@ func (f *DenseNumFeature) Less(i int, j int) bool {
 //PutStr parses a string and puts it in the i'th position
 func (f *DenseNumFeature) PutStr(i int, v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.Missing[i] = true
 		f.HasMissing = true
 		return
-- 
2.43.0


From cd56faeec98f15652b2fd1f7cfcc1de8c985f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 14/49] fix: don't add a category when a missing value is put
 into a categorical feature

---
 densecatfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index bdd806b..1d2db96 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -147,6 +147,7 @@ func (f *DenseCatFeature) PutStr(i int, v string) {
 	if len(norm) == 0 || norm == "?" || norm == "nan" || norm == "na" || norm == "null" {
 		f.Missing[i] = true
 		f.HasMissing = true
+		return
 	}
 	vi := f.CatToNum(v)
 	f.CatData[i] = vi
-- 
2.43.0


From d0fdfdd13b99f6b2438ed7a4ccdec6b4fe5df6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 15/49] fix: copy whether a feature has missing values together
 with its missing entries

---
 densecatfeature.go | 1 +
 densenumfeature.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 1d2db96..c50e09c 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1217,6 +1217,7 @@ func (f *DenseCatFeature) CopyInTo(copyf Feature) {
 
 	copy(copyf.(*DenseCatFeature).Missing, f.Missing)
 	copy(copyf.(*DenseCatFeature).CatData, f.CatData)
+	copyf.(*DenseCatFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
diff --git a/densenumfeature.go b/densenumfeature.go
index 796444d..e37e5ff 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -650,7 +650,7 @@ func (f *DenseNumFeature) Copy() Feature {
 		nil,
 		make([]bool, capacity),
 		f.Name,
-		false}
+		f.HasMissing}
 
 	copy(fake.Missing, f.Missing)
 
@@ -664,6 +664,7 @@ func (f *DenseNumFeature) Copy() Feature {
 func (f *DenseNumFeature) CopyInTo(copyf Feature) {
 	copy(copyf.(*DenseNumFeature).Missing, f.Missing)
 	copy(copyf.(*DenseNumFeature).NumData, f.NumData)
+	copyf.(*DenseNumFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
-- 
2.43.0


From d7d97ec340a51aca1995d5f3c5a57e24f01efadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 16/49] fix: give copies of categorical features their own
 category map

---
 catmap.go          | 9 +++++++++
 densecatfeature.go | 3 +--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/catmap.go b/catmap.go
index cbaf259..8f99ad4 100644
--- a/catmap.go
+++ b/catmap.go
@@ -43,3 +43,12 @@ func (cm *CatMap) NCats() (n int) {
 	}
 	return
 }
+
+//copy returns a CatMap with the same catagories that can be added to independently.
+func (cm *CatMap) copy() *CatMap {
+	out := &CatMap{make(map[string]int, len(cm.Map)), append([]string{}, cm.Back...)}
+	for k, v := range cm.Map {
+		out.Map[k] = v
+	}
+	return out
+}
diff --git a/densecatfeature.go b/densecatfeature.go
index c50e09c..03cf8bd 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1195,8 +1195,7 @@ func (f *DenseCatFeature) ShuffledCopy() Feature {
 func (f *DenseCatFeature) Copy() Feature {
 	capacity := len(f.Missing)
 	fake := &DenseCatFeature{
-		&CatMap{f.Map,
-			f.Back},
+		f.CatMap.copy(),
 		nil,
 		make([]bool, capacity),
 		f.Name,
-- 
2.43.0


From 29846aa57a39ad08758c5c6f594cd62bded71918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 17/49] fix: give encoded features their own missing entries
 and values

---
 densecatfeature.go | 6 +++---
 featurematrix.go   | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 03cf8bd..0fa2bd6 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -30,7 +30,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 	if f.NCats() <= 2 {
 		fn := &DenseNumFeature{
 			make([]float64, l, l),
-			f.Missing,
+			append([]bool{}, f.Missing...),
 			f.Name,
 			f.HasMissing}
 		for i, v := range f.CatData {
@@ -42,7 +42,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 		for j, sv := range f.Back {
 			fn := &DenseNumFeature{
 				make([]float64, l, l),
-				f.Missing,
+				append([]bool{}, f.Missing...),
 				f.Name + "==" + sv,
 				f.HasMissing}
 			for i, v := range f.CatData {
@@ -65,7 +65,7 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 				&CatMap{map[string]int{"false": 0, "true": 1},
 					[]string{"false", "true"}},
 				make([]int, l, l),
-				f.Missing,
+				append([]bool{}, f.Missing...),
 				f.Name + "==" + sv,
 				f.RandomSearch,
 				f.HasMissing}
diff --git a/featurematrix.go b/featurematrix.go
index 4aca6d3..84ec895 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -63,13 +63,13 @@ func (fm *FeatureMatrix) StripStrings(target string) {
 func (fm *FeatureMatrix) EncodeToNum() *FeatureMatrix {
 	out := &FeatureMatrix{make([]Feature, 0, len(fm.Data)),
 		make(map[string]int),
-		fm.CaseLabels}
+		append([]string{}, fm.CaseLabels...)}
 
 	for _, f := range fm.Data {
 		switch f.(type) {
 		case NumFeature:
 			out.Map[f.GetName()] = len(out.Map)
-			out.Data = append(out.Data, f)
+			out.Data = append(out.Data, f.Copy())
 		case CatFeature:
 			fns := f.(CatFeature).EncodeToNum()
 			for _, fn := range fns {
@@ -84,13 +84,13 @@ func (fm *FeatureMatrix) EncodeToNum() *FeatureMatrix {
 func (fm *FeatureMatrix) OneHot() *FeatureMatrix {
 	out := &FeatureMatrix{make([]Feature, 0, len(fm.Data)),
 		make(map[string]int),
-		fm.CaseLabels}
+		append([]string{}, fm.CaseLabels...)}
 
 	for _, f := range fm.Data {
 		switch f.(type) {
 		case NumFeature:
 			out.Map[f.GetName()] = len(out.Map)
-			out.Data = append(out.Data, f)
+			out.Data = append(out.Data, f.Copy())
 		case CatFeature:
 			fns := f.(CatFeature).OneHot()
 			for _, fn := range fns {
-- 
2.43.0


From aea29b43c90b67a9c3bc3dde4abe44c8c60f4a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 18/49] fix: keep features with up to two categories in one hot
 encoded matrixes

---
 densecatfeature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index 0fa2bd6..83d6ebe 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -56,6 +56,8 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 	return
 }
 
+//OneHot returns a categorical indicator feature for each of the distinct catagories in
+//the feature or a copy if it allready has no more then two.
 func (f *DenseCatFeature) OneHot() (fs []Feature) {
 	l := f.Length()
 	if f.NCats() > 2 {
@@ -77,6 +79,8 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 			}
 			fs = append(fs, fn)
 		}
+	} else {
+		fs = []Feature{f.Copy()}
 	}
 	return
 }
-- 
2.43.0


From cd09ba474d7d6850432e0d8e898dfe9595f34cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 19/49] fix: quote fields in WriteCases so that ParseAFM reads
 them back

---
 featurematrix.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index 84ec895..c5a9093 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -106,12 +106,16 @@ func (fm *FeatureMatrix) OneHot() *FeatureMatrix {
 func (fm *FeatureMatrix) WriteCases(w io.Writer, cases []int) (err error) {
 	vals := make([]string, 0, len(cases)+1)
 
+	//fields are quoted where ParseAFM would not read them back otherwise
+	tsv := csv.NewWriter(w)
+	tsv.Comma = '\t'
+
 	//print header
 	vals = append(vals, ".")
 	for i := 0; i < len(cases); i++ {
 		vals = append(vals, fm.CaseLabels[cases[i]])
 	}
-	_, err = fmt.Fprintln(w, strings.Join(vals, "\t"))
+	err = tsv.Write(vals)
 	if err != nil {
 		return
 	}
@@ -123,14 +127,15 @@ func (fm *FeatureMatrix) WriteCases(w io.Writer, cases []int) (err error) {
 			vals = append(vals, fm.Data[i].GetStr(cases[j]))
 		}
 
-		_, err = fmt.Fprintln(w, strings.Join(vals, "\t"))
+		err = tsv.Write(vals)
 		if err != nil {
 			return
 		}
 
 	}
 
-	return
+	tsv.Flush()
+	return tsv.Error()
 
 }
 
-- 
2.43.0


From ada13ed8aab9e2ae04b347bf5c23ebebcae4000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 20/49] fix: don't panic on AFM files without cases or content

---
 featurematrix.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index c5a9093..1923be1 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -356,14 +356,14 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 	tsv.Comma = '\t'
 	headers, err := tsv.Read()
 	if err == io.EOF {
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return &FeatureMatrix{data, lookup, []string{}}
 	} else if err != nil {
 		log.Print("Error:", err)
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return &FeatureMatrix{data, lookup, []string{}}
 	}
 	headers = headers[1:]
 
-	if len(headers[0]) > 1 {
+	if len(headers) > 0 && len(headers[0]) > 1 {
 		sniff := headers[0][:2]
 		if sniff == "N:" || sniff == "C:" || sniff == "B:" {
 			//features in cols
-- 
2.43.0


From b21b5ee60fab13830a557bfebb33f25094ccf403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 21/49] fix: don't panic on feature names shorter than two
 characters

---
 featurematrix.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index 1923be1..6200235 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -369,7 +369,7 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 			//features in cols
 
 			for i, label := range headers {
-				if label[:2] == "N:" {
+				if strings.HasPrefix(label, "N:") {
 					data = append(data, &DenseNumFeature{
 						make([]float64, 0, 0),
 						make([]bool, 0, 0),
@@ -451,8 +451,8 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 //"N:"" indicating numerical, anything else (usually "C:" and "B:") for categorical
 func ParseFeature(record []string) Feature {
 	capacity := len(record)
-	switch record[0][0:2] {
-	case "N:":
+	switch {
+	case strings.HasPrefix(record[0], "N:"):
 		f := &DenseNumFeature{
 			nil,
 			make([]bool, 0, capacity),
-- 
2.43.0


From ba8b4272a007e26a949272ab4222c559d967c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 22/49] fix: StripStrings mapped every category to the
 feature's index

---
 featurematrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 6200235..d8e8e0e 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -51,7 +51,7 @@ func (fm *FeatureMatrix) StripStrings(target string) {
 			for j, v := range f.(*DenseCatFeature).Back {
 				v = fmt.Sprintf("%v", j)
 				f.(*DenseCatFeature).Back[j] = v
-				f.(*DenseCatFeature).Map[v] = i
+				f.(*DenseCatFeature).Map[v] = j
 
 			}
 
-- 
2.43.0


From 5202d04703a30d16751419de22b67da1583af349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 23/49] fix: accept spaces after commas in ARFF rows

---
 arff.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arff.go b/arff.go
index 8c1b841..b72d969 100644
--- a/arff.go
+++ b/arff.go
@@ -65,6 +65,8 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 
 	csvdata := csv.NewReader(reader)
 	csvdata.Comment = '%'
+	//commas may be followed by spaces
+	csvdata.TrimLeadingSpace = true
 	//csvdata.Comma = ','
 
 	fm.LoadCases(csvdata, false)
-- 
2.43.0


From f752e494514aa5a5f2fab894d484cd817803430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 24/49] fix: read ARFF files that end with the data line

---
 arff.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arff.go b/arff.go
index b72d969..33d4e2f 100644
--- a/arff.go
+++ b/arff.go
@@ -24,11 +24,12 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 	for {
 
 		line, err := reader.ReadString('\n')
-		if err != nil {
+		norm := strings.ToLower(line)
+		//without any rows the data line may be the last one and lack a newline
+		if err != nil && !(err == io.EOF && strings.HasPrefix(norm, "@data")) {
 			log.Print("Error:", err)
 			return nil
 		}
-		norm := strings.ToLower(line)
 
 		if strings.HasPrefix(norm, "@data") {
 			break
-- 
2.43.0


From 2647ce1db5af0d8bfd83b6e0c680aa8817842e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 25/49] fix: read the last line of a LibSVM file that doesn't
 end in a newline

---
 libsvm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsvm.go b/libsvm.go
index 06e1c11..6842da0 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -22,10 +22,11 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 	for {
 		ncases++
 
+		//the last line may lack a newline
 		line, err := reader.ReadString('\n')
-		if err == io.EOF {
+		if err == io.EOF && line == "" {
 			break
-		} else if err != nil {
+		} else if err != nil && err != io.EOF {
 			log.Print("Error:", err)
 			return nil
 		}
-- 
2.43.0


From b247896ef71efad395d9bc17444df4cc953607bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 26/49] fix: skip blank lines in LibSVM files instead of
 panicking

---
 libsvm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libsvm.go b/libsvm.go
index 6842da0..0d43724 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -20,8 +20,6 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 	i := 0
 	ncases := 0
 	for {
-		ncases++
-
 		//the last line may lack a newline
 		line, err := reader.ReadString('\n')
 		if err == io.EOF && line == "" {
@@ -32,6 +30,11 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 		}
 
 		vals := strings.Fields(line)
+		//skip blank lines
+		if len(vals) == 0 {
+			continue
+		}
+		ncases++
 
 		if i == 0 {
 			name := "0"
-- 
2.43.0


From 082fb704e7fb9a629b6ed882b407dc1a3da0ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 27/49] fix: don't impute the caller's features when writing
 LibSVM cases

---
 libsvm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsvm.go b/libsvm.go
index 0d43724..f79974f 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -167,7 +167,8 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 				encode = true
 			}
 			noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)
-			noTargetFm.Data = append(noTargetFm.Data, f)
+			//imputing must not change the caller's data
+			noTargetFm.Data = append(noTargetFm.Data, f.Copy())
 
 		}
 	}
-- 
2.43.0


From 99761d09c3a17a990105065d0405941367cd4535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 28/49] fix: don't sample from classes without cases

---
 sampeling.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sampeling.go b/sampeling.go
index de4afbb..dba1a96 100644
--- a/sampeling.go
+++ b/sampeling.go
@@ -28,6 +28,18 @@ func NewBalancedSampler(catf *DenseCatFeature) (s *BalancedSampler) {
 			s.Cases[v] = append(s.Cases[v], i)
 		}
 	}
+	s.Cases = withCases(s.Cases)
+	return
+}
+
+//withCases removes the classes that have no cases, which can't be sampled from.
+func withCases(classes [][]int) (present [][]int) {
+	present = classes[0:0]
+	for _, cases := range classes {
+		if len(cases) > 0 {
+			present = append(present, cases)
+		}
+	}
 	return
 }
 
@@ -73,6 +85,9 @@ func NewSecondaryBalancedSampler(target *DenseCatFeature, balanceby *DenseCatFea
 			s.Samplers[balanceCat][targetCat] = append(s.Samplers[balanceCat][targetCat], i)
 		}
 	}
+	for i, sampler := range s.Samplers {
+		s.Samplers[i] = withCases(sampler)
+	}
 	return
 
 }
-- 
2.43.0


From 81dd76f96a30aa04165d8e85f879c1dd32b37991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 29/49] fix: make categorical votes for different cases safe to
 cast concurrently

---
 catballotbox.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index ad15fa1..816df5d 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -21,15 +21,16 @@ func NewCatBallot() (cb *CatBallot) {
 //CatBallotBox keeps track of votes by trees in a thread safe manner.
 type CatBallotBox struct {
 	*CatMap
-	Box []*CatBallot
+	Box   []*CatBallot
+	mutex sync.Mutex //guards the CatMap
 }
 
 //NewCatBallotBox builds a new ballot box for the number of cases specified by "size".
 func NewCatBallotBox(size int) *CatBallotBox {
 	bb := CatBallotBox{
-		&CatMap{make(map[string]int),
+		CatMap: &CatMap{make(map[string]int),
 			make([]string, 0, 0)},
-		make([]*CatBallot, 0, size)}
+		Box: make([]*CatBallot, 0, size)}
 	for i := 0; i < size; i++ {
 		bb.Box = append(bb.Box, NewCatBallot())
 	}
@@ -39,7 +40,9 @@ func NewCatBallotBox(size int) *CatBallotBox {
 //Vote registers a vote that case "casei" should be predicted to be the
 //category "pred".
 func (bb *CatBallotBox) Vote(casei int, pred string, weight float64) {
+	bb.mutex.Lock()
 	predn := bb.CatToNum(pred)
+	bb.mutex.Unlock()
 	bb.Box[casei].Mutex.Lock()
 	if _, ok := bb.Box[casei].Map[predn]; !ok {
 		bb.Box[casei].Map[predn] = 0
@@ -65,7 +68,9 @@ func (bb *CatBallotBox) Tally(i int) (predicted string) {
 	}
 	bb.Box[i].Mutex.Unlock()
 	if votes > 0 {
+		bb.mutex.Lock()
 		predicted = bb.Back[predictedn]
+		bb.mutex.Unlock()
 	} else {
 		predicted = "NA"
 	}
-- 
2.43.0


From 021f703e8ac33b066a42bcb043cfa211a502319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 30/49] fix: keep running means usable after a value of zero
 weight

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 14a59ff..01ca310 100644
--- a/utils.go
+++ b/utils.go
@@ -31,7 +31,7 @@ func (rm *RunningMean) Add(val float64) {
 
 //WeightedAdd add's the specified value to the running mean in a thread safe way.
 func (rm *RunningMean) WeightedAdd(val float64, weight float64) {
-	if !math.IsNaN(val) && !math.IsNaN(weight) {
+	if !math.IsNaN(val) && !math.IsNaN(weight) && weight != 0 {
 		rm.mutex.Lock()
 		rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)
 		rm.Count += weight
-- 
2.43.0


From 77aab54bef4132bb85d729c43b06209cb617f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 31/49] fix: ignore categories without known cases in the
 balanced error

---
 catballotbox.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index 816df5d..a40f9d2 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -89,7 +89,7 @@ Y are the labels
 Y' are the estimated labels
 xi is the set of samples with the ith actual label
 
-Case for which the true category is not known are ignored.
+Case for which the true category is not known are ignored, as are labels no case has.
 
 */
 func (bb *CatBallotBox) TallyError(feature Feature) (e float64) {
@@ -112,11 +112,15 @@ func (bb *CatBallotBox) TallyError(feature Feature) (e float64) {
 		}
 	}
 
+	present := 0
 	for i, ncorrect := range correct {
-		e += float64(ncorrect) / float64(total[i])
+		if total[i] > 0 {
+			e += float64(ncorrect) / float64(total[i])
+			present++
+		}
 	}
 
-	e /= float64(ncats)
+	e /= float64(present)
 	e = 1.0 - e
 
 	return
-- 
2.43.0


From da52398065d36c2201a2b301649710d7e9cbd725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 32/49] fix: ignore cases without votes in the squared error

---
 numballotbox.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/numballotbox.go b/numballotbox.go
index c0b5583..056da57 100644
--- a/numballotbox.go
+++ b/numballotbox.go
@@ -54,7 +54,7 @@ func (bb *NumBallotBox) Tally(i int) (predicted string) {
 //For numerical features it returns mean squared error.
 //The provided feature must use the same index as the feature matrix
 //the ballot box was constructed with.
-//Missing values are ignored.
+//Missing values and cases without votes are ignored.
 //Gini impurity is not used so this is not for use in rf implementations.
 func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 	e = 0.0
@@ -63,8 +63,8 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 	d := 0.0
 	c := 0
 	for i := 0; i < feature.Length(); i++ {
-		predicted := bb.TallyNum(i)
-		if !feature.IsMissing(i) && !math.IsNaN(predicted) {
+		predicted, votes := bb.box[i].Read()
+		if !feature.IsMissing(i) && votes > 0 && !math.IsNaN(predicted) {
 			value := feature.(NumFeature).Get(i)
 
 			d = float64(value) - predicted
@@ -73,7 +73,7 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 		}
 	}
 	if c == 0.0 {
-		log.Fatal("TallyError with 0 count!")
+		log.Print("TallyError with 0 count!")
 	}
 	e = e / float64(c)
 
-- 
2.43.0


From ef435f06dfe8232cd5cdaa785e023e9cadc3ecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 33/49] fix: make adaptive boosting targets satisfy
 BoostingTarget so that they are boosted

---
 adaboosttarget.go       | 2 +-
 adacosttarget.go        | 2 +-
 forrest.go              | 9 +++++++--
 numadaboostingtarget.go | 2 +-
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 8877fa6..f9ab1f4 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -112,7 +112,7 @@ func (target *AdaBoostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e flo
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
diff --git a/adacosttarget.go b/adacosttarget.go
index 606fede..bbac780 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -128,7 +128,7 @@ func (target *AdaCostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e floa
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaCostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
diff --git a/forrest.go b/forrest.go
index fd6aab9..e2921f2 100644
--- a/forrest.go
+++ b/forrest.go
@@ -1,6 +1,8 @@
 package CloudForest
 
-import ()
+import (
+	"math"
+)
 
 //Forest represents a collection of decision trees grown to predict Target.
 type Forest struct {
@@ -62,7 +64,10 @@ func GrowRandomForest(fm *FeatureMatrix,
 		switch target.(type) {
 		case BoostingTarget:
 			ls, ps := f.Trees[i].Partition(fm)
-			f.Trees[i].Weight = target.(BoostingTarget).Boost(ls, ps)
+			//A tree without error has no finite weight and keeps its default one.
+			if weight := target.(BoostingTarget).Boost(ls, ps); !math.IsInf(weight, 1) {
+				f.Trees[i].Weight = weight
+			}
 		}
 	}
 	return
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index ed5be91..150aede 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -77,7 +77,7 @@ func (target *NumAdaBoostTarget) Impurity(cases *[]int, counter *[]int) (e float
 //
 //These functions are chosen to provide a rough analog to catagorical adaptive boosting for
 //numerical data with unbounded error.
-func (t *NumAdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	if len(*leaves) == 0 {
 		return 0.0
 	}
-- 
2.43.0


From 4bb2dbb4c223bbb89421e06e1298d73ac4233aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:53 +0000
Subject: [PATCH 34/49] fix: keep the weights of adaptive boosting numbers when
 a tree has no error

---
 adaboosttarget.go       | 4 ++++
 adacosttarget.go        | 4 ++++
 numadaboostingtarget.go | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index f9ab1f4..95ca283 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -121,6 +121,10 @@ func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64
 	if weight >= .5 {
 		return 0.0
 	}
+	if weight == 0 {
+		//No case to learn from is left.
+		return math.Inf(1)
+	}
 	weight = .5 * math.Log((1-weight)/weight)
 
 	for _, cases := range *leaves {
diff --git a/adacosttarget.go b/adacosttarget.go
index bbac780..4f41cf0 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -137,6 +137,10 @@ func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64)
 	if weight >= .5 {
 		return 0.0
 	}
+	if weight == 0 {
+		//No case to learn from is left.
+		return math.Inf(1)
+	}
 	weight = .5 * math.Log((1-weight)/weight)
 
 	for _, cases := range *leaves {
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index 150aede..2368d1c 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -92,6 +92,11 @@ func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight floa
 		return 0.0
 	}
 
+	if imp == 0 {
+		//No error to learn from is left.
+		return math.Inf(1)
+	}
+
 	weight = math.Log(norm / imp)
 
 	for _, cases := range *leaves {
-- 
2.43.0


From ad865cda887dd64e6706601f7700152cfd438526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 35/49] fix: leave missing targets missing when gradient
 boosting

---
 gradboostclasstarget.go | 20 ++++++++++++++++++--
 gradboosttarget.go      | 14 ++++++++++----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/gradboostclasstarget.go b/gradboostclasstarget.go
index 64833be..7085299 100644
--- a/gradboostclasstarget.go
+++ b/gradboostclasstarget.go
@@ -40,6 +40,9 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 	pred := actual.Copy().(*DenseNumFeature)
 	// Make sure the encoding has the positive class as 1
 	for i := 0; i < f.Length(); i++ {
+		if f.IsMissing(i) {
+			continue
+		}
 		if f.GetStr(i) == pos_class {
 			actual.Put(i, 1.0)
 		} else {
@@ -51,14 +54,21 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 	res := &GradBoostTarget{actual.Copy().(*DenseNumFeature), learnrate, 0.0}
 
 	pos := 0.0
+	known := 0.0
 	for i := 0; i < actual.Length(); i++ {
-		pos += actual.Get(i)
+		if !actual.IsMissing(i) {
+			pos += actual.Get(i)
+			known++
+		}
 	}
 
 	// Set intial residual to
-	prior := math.Log(pos / (float64(res.Length()) - pos))
+	prior := math.Log(pos / (known - pos))
 
 	for i := 0; i < res.Length(); i++ {
+		if res.IsMissing(i) {
+			continue
+		}
 		pred.Put(i, prior)
 		v := actual.Get(i) - Expit(prior)
 		res.Put(i, v)
@@ -90,6 +100,9 @@ func (f *GradBoostClassTarget) Predicted(cases *[]int) float64 {
 	denom := 0.0
 
 	for _, c := range *cases {
+		if f.IsMissing(c) {
+			continue
+		}
 		r := f.Get(c)
 		num += r
 		y := f.Actual.Get(c)
@@ -110,6 +123,9 @@ func (f *GradBoostClassTarget) FindPredicted(cases []int) (pred string) {
 //specified cases from the value for those cases.
 func (f *GradBoostClassTarget) Update(cases *[]int, predicted float64) {
 	for _, i := range *cases {
+		if f.IsMissing(i) {
+			continue
+		}
 		pred := f.Pred.Get(i) + f.LearnRate*predicted
 		f.Pred.Put(i, pred)
 
diff --git a/gradboosttarget.go b/gradboosttarget.go
index 98cfee6..3554808 100644
--- a/gradboosttarget.go
+++ b/gradboosttarget.go
@@ -17,16 +17,22 @@ func NewGradBoostTarget(f NumFeature, learnrate float64) (gbc *GradBoostTarget)
 
 	//res := NumFeature.(*DenseNumFeature).Copy().(*DenseNumFeature)
 	sum := 0.0
+	known := 0
 	for i := 0; i < f.Length(); i++ {
-		sum += f.Get(i)
+		if !f.IsMissing(i) {
+			sum += f.Get(i)
+			known++
+		}
 	}
 
 	// Set intial residual to
-	prior := sum / float64(f.Length())
+	prior := sum / float64(known)
 
 	for i := 0; i < f.Length(); i++ {
-		v := f.Get(i) - prior
-		f.Put(i, v)
+		if !f.IsMissing(i) {
+			v := f.Get(i) - prior
+			f.Put(i, v)
+		}
 	}
 
 	//fmt.Println(res.Copy().(*DenseNumFeature).NumData)
-- 
2.43.0


From af165724ef3a752544c081fcd8866ba3ba12da43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 36/49] fix: don't count missing targets as errors when
 adaptively boosting

---
 adaboosttarget.go | 16 ++++++++++++++++
 adacosttarget.go  |  1 +
 2 files changed, 17 insertions(+)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 95ca283..d3b82ba 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -110,9 +110,25 @@ func (target *AdaBoostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e flo
 
 }
 
+//knownCases returns the partition without the cases whose target is missing.
+func knownCases(target Feature, leaves *[][]int) *[][]int {
+	known := make([][]int, 0, len(*leaves))
+	for _, cases := range *leaves {
+		leaf := make([]int, 0, len(cases))
+		for _, c := range cases {
+			if !target.IsMissing(c) {
+				leaf = append(leaf, c)
+			}
+		}
+		known = append(known, leaf)
+	}
+	return &known
+}
+
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
 func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
+	leaves = knownCases(t, leaves)
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
diff --git a/adacosttarget.go b/adacosttarget.go
index 4f41cf0..80653ef 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -129,6 +129,7 @@ func (target *AdaCostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e floa
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
 func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
+	leaves = knownCases(t, leaves)
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
-- 
2.43.0


From da3e220f68b0472dba29e05f12d43a60c0769fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 37/49] fix: apply forests with forced voting to data of the
 other kind of target

---
 applyforest/applyforest.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index 24689d2..6c38542 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -74,8 +74,15 @@ func main() {
 	targeti, hasTarget := data.Map[forest.Target]
 	if hasTarget {
 		fmt.Printf("Target is %v in feature %v\n", forest.Target, targeti)
-		er := bb.TallyError(data.Data[targeti])
-		fmt.Printf("Error: %v\n", er)
+		_, numtarget := data.Data[targeti].(CloudForest.NumFeature)
+		_, numbox := bb.(*CloudForest.NumBallotBox)
+		_, catbox := bb.(*CloudForest.CatBallotBox)
+		if (catbox && numtarget) || (numbox && !numtarget) {
+			fmt.Println("Error isn't defined for this target and voting.")
+		} else {
+			er := bb.TallyError(data.Data[targeti])
+			fmt.Printf("Error: %v\n", er)
+		}
 	}
 	if *predfn != "" {
 		fmt.Printf("Outputting label predicted actual tsv to %v\n", *predfn)
-- 
2.43.0


From 111ff059acc863b8d618de0a086e0549d95df087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:59 +0000
Subject: [PATCH 38/49] fix: don't crash on forests with an intercept voting by
 mode

---
 applyforest/applyforest.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index 6c38542..ec1f837 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -94,7 +94,8 @@ func main() {
 
 			result := ""
 
-			if sum || forest.Intercept != 0.0 {
+			_, numeric := bb.(*CloudForest.NumBallotBox)
+			if sum || (numeric && forest.Intercept != 0.0) {
 				numresult := 0.0
 				if sum {
 					numresult = bb.(*CloudForest.SumBallotBox).TallyNum(i) + forest.Intercept
-- 
2.43.0


From 5a7fe268a9271351849f34fbeea608df408f329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:57 +0000
Subject: [PATCH 39/49] fix: don't write leafcount's record of splits from
 several threads at once

---
 leafcount/leafcount.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/leafcount/leafcount.go b/leafcount/leafcount.go
index b32a58f..a4494e2 100644
--- a/leafcount/leafcount.go
+++ b/leafcount/leafcount.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"runtime"
 	"strings"
+	"sync"
 )
 
 func main() {
@@ -23,6 +24,7 @@ func main() {
 	flag.Parse()
 
 	splits := make(map[string][]string)
+	var splitsMu sync.Mutex
 
 	//Parse Data
 	data, err := CloudForest.LoadAFM(*fm)
@@ -83,6 +85,7 @@ func main() {
 					}
 
 					if *soutf != "" {
+						splitsMu.Lock()
 						forest.Trees[i].Root.Climb(func(n *CloudForest.Node) {
 							if n.Splitter != nil {
 								name := n.Splitter.Feature
@@ -104,6 +107,7 @@ func main() {
 								splits[name] = append(splits[name], split)
 							}
 						})
+						splitsMu.Unlock()
 					}
 
 				}
-- 
2.43.0


From 49aba0519b9b7c5e6370749b17abc485605ae418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 40/49] fix: put the cases that don't divide evenly into
 nfold's folds instead of dropping them

---
 utils/nfold/main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index e775ed6..c432739 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -189,7 +189,7 @@ func main() {
 		}
 		CloudForest.SampleFirstN(&cases, nil, len(cases), 0)
 		for j := 0; j < folds; j++ {
-			for k := j * foldsize; k < (j+1)*foldsize; k++ {
+			for k := j * ncases / folds; k < (j+1)*ncases/folds; k++ {
 				foldis[j] = append(foldis[j], cases[k])
 			}
 		}
@@ -205,9 +205,10 @@ func main() {
 			fmt.Printf("%v cases in class %v.\n", len(bSampler.Cases[i]), i)
 			//shuffle in place
 			CloudForest.SampleFirstN(&bSampler.Cases[i], &samples, len(bSampler.Cases[i]), 0)
-			stratFoldSize := len(bSampler.Cases[i]) / folds
+			//folds' sizes differ by at most one so that no cases are left over
+			stratCases := len(bSampler.Cases[i])
 			for j := 0; j < folds; j++ {
-				for k := j * stratFoldSize; k < (j+1)*stratFoldSize; k++ {
+				for k := j * stratCases / folds; k < (j+1)*stratCases/folds; k++ {
 					foldis[j] = append(foldis[j], bSampler.Cases[i][k])
 
 				}
-- 
2.43.0


From 8a7b850f4709ef835525095d8924fb8dfdab75dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 41/49] fix: make nfold's -onehot encode the data it writes

---
 utils/nfold/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index c432739..acaba94 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -147,7 +147,7 @@ func main() {
 
 	if onehot {
 		fmt.Println("OneHot encoding.")
-		data.OneHot()
+		data = data.OneHot()
 	}
 
 	if num {
-- 
2.43.0


From fa3d0b8c9359238d16df194229b24842076193e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:14 +0000
Subject: [PATCH 42/49] fix: write nfold's libsvm files for targets of more
 than two classes

Encoding the data beforehand removed the target, so that the files were
empty. WriteLibSvmCases encodes the other features itself.
---
 utils/nfold/main.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index acaba94..8016577 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -216,19 +216,6 @@ func main() {
 
 		}
 	}
-	encode := false
-
-	for _, f := range data.Data {
-		if f.NCats() > 0 {
-			encode = true
-		}
-	}
-
-	encoded := data
-	if encode && (writelibsvm || writeall) {
-		encoded = data.EncodeToNum()
-	}
-
 	trainis := make([]int, 0, foldsize*(folds-1))
 	//Write training and testing matrixes
 	for i := 0; i < folds; i++ {
@@ -257,8 +244,8 @@ func main() {
 
 		if writelibsvm || writeall {
 			trainW, testW := openfiles(trainfn+".libsvm", testfn+".libsvm")
-			CloudForest.WriteLibSvmCases(encoded, foldis[i], *targetname, testW)
-			CloudForest.WriteLibSvmCases(encoded, trainis, *targetname, trainW)
+			CloudForest.WriteLibSvmCases(data, foldis[i], *targetname, testW)
+			CloudForest.WriteLibSvmCases(data, trainis, *targetname, trainW)
 		}
 
 		fmt.Printf("Wrote fold %v. %v testing cases and %v training cases.\n", i, len(foldis[i]), len(trainis))
-- 
2.43.0


From 48c36cf9767f6d95ce0bf414f29be2f236c50338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 43/49] fix: give every tree of a forest that is tested its own
 nodes

The last tree was grown over the one before it, which then voted twice.
---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 4f3ae28..30c07a0 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -713,7 +713,7 @@ func main() {
 					if dotest && foresti == nForest-1 {
 						trees = append(trees, tree)
 
-						if treesStarted < nTrees-1 {
+						if treesStarted < nTrees {
 							//newtree := new(CloudForest.Tree)
 							tree = CloudForest.NewTree()
 							tree.Target = *targetname
-- 
2.43.0


From 48f51ef3db4ecc7e2c01d4dc9bf43b850afc0382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:52 +0000
Subject: [PATCH 44/49] fix: don't crash when a category predicted is missing
 from growforest's test data

---
 growforest/growforest.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 30c07a0..99ddef6 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -942,6 +942,13 @@ func main() {
 					nas++
 				} else {
 					predi := testtarget.(*CloudForest.DenseCatFeature).CatToNum(pred)
+					if predi >= len(predtotals) {
+						//no case of the test data has this category
+						falsesbypred = append(falsesbypred, 0)
+						predtotals = append(predtotals, 0)
+						truebytrue = append(truebytrue, 0)
+						truetotals = append(truetotals, 0)
+					}
 					predtotals[predi]++
 					if pred == testtarget.GetStr(i) {
 						correct++
-- 
2.43.0


From 6e431062d32ea59f178828842f05f7db204b64d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 45/49] fix: don't count test cases with a missing target
 towards the first category

---
 growforest/growforest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 99ddef6..d792461 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -935,6 +935,9 @@ func main() {
 			nas := 0
 			length := testtarget.Length()
 			for i := 0; i < length; i++ {
+				if testtarget.IsMissing(i) {
+					continue
+				}
 				truei := testtarget.(*CloudForest.DenseCatFeature).Geti(i)
 				truetotals[truei]++
 				pred := bb.Tally(i)
-- 
2.43.0


From 553211799b832f0b9f7ac1bf381d3e5104a7e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 46/49] fix: grow unbagged trees from all cases with a known
 target

With -nSamples set to the number of all cases the last ones were left out
where targets are missing.
---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index d792461..5488668 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -603,7 +603,7 @@ func main() {
 				oobcases := make([]int, 0, nNonMissing)
 
 				if nobag {
-					for i := 0; i < nNonMissing; i++ {
+					for i := 0; i < targetf.Length(); i++ {
 						if !targetf.IsMissing(i) {
 							cases = append(cases, i)
 						}
-- 
2.43.0


From cd82a7b658d84d63710c84e77115b0610b8ed557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 47/49] fix: don't grow more trees than requested on more cores
 than trees

---
 growforest/growforest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 5488668..5acf99d 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -205,6 +205,11 @@ func main() {
 		nCores = 1
 	}
 
+	if nCores > nTrees && nTrees > 0 {
+		//every thread grows at least one tree
+		nCores = nTrees
+	}
+
 	if nCores > 1 {
 
 		runtime.GOMAXPROCS(nCores)
-- 
2.43.0


From 9e03adb5c1aebbee3ead02de4821015121ae5141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 48/49] fix: count features used only at the root of a tree as
 used in it

The depth of the root, 0, also stood for not used, so trees that split on a
feature at the root only weren't counted in its importance scores and deeper
splits took the root's place in the mean minimal depth.
---
 growforest/growforest.go | 7 +++++--
 tree.go                  | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 5acf99d..d9b91bd 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -618,6 +618,9 @@ func main() {
 				var depthUsed *[]int
 				if mmdpnt != nil {
 					du := make([]int, len(data.Data))
+					for i := range du {
+						du[i] = -1 //not used, the root has depth 0
+					}
 					depthUsed = &du
 				}
 
@@ -674,9 +677,9 @@ func main() {
 					}
 					if mmdpnt != nil {
 						for i, v := range *depthUsed {
-							if v != 0 {
+							if v >= 0 {
 								(*mmdpnt)[i].Add(float64(v))
-								(*depthUsed)[i] = 0
+								(*depthUsed)[i] = -1
 							}
 
 						}
diff --git a/tree.go b/tree.go
index 983e685..4b856e6 100644
--- a/tree.go
+++ b/tree.go
@@ -142,7 +142,7 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 				if importance != nil {
 					(*importance)[fi].Add(impDec)
 				}
-				if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
+				if depthUsed != nil && ((*depthUsed)[fi] < 0 || depth < (*depthUsed)[fi]) {
 					(*depthUsed)[fi] = depth
 				}
 				//not a leaf node so define the splitter and left and right nodes
@@ -230,7 +230,7 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					if importance != nil {
 						(*importance)[fi].Add(impDec)
 					}
-					if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
+					if depthUsed != nil && ((*depthUsed)[fi] < 0 || depth < (*depthUsed)[fi]) {
 						(*depthUsed)[fi] = depth
 					}
 
-- 
2.43.0


From 81007d09cfb65e0d343e99df549378f80711a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:47 +0000
Subject: [PATCH 49/49] fix: growforest -vet -evaloob crashed when more cases
 are out of bag than sampled

---
 growforest/growforest.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index d9b91bd..c08643e 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -624,7 +624,12 @@ func main() {
 					depthUsed = &du
 				}
 
-				allocs := CloudForest.NewBestSplitAllocs(nSamples, targetf)
+				//vetting on out of bag cases searches those, they can outnumber the sampled ones
+				nAllocs := nSamples
+				if evaloob && vet && nAllocs < targetf.Length() {
+					nAllocs = targetf.Length()
+				}
+				allocs := CloudForest.NewBestSplitAllocs(nAllocs, targetf)
 				for {
 					nCases := data.Data[0].Length()
 					//sample nCases case with replacement
-- 
2.43.0

