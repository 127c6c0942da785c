From 4f19085a6c187776ecef9da31d518dfae9c1a9eb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:03:53 +0000
Subject: [PATCH 01/25] fix: Queue.DequeueBack drops only the last element

DequeueBack resliced with [1:n], removing the first element as well as the
last (and panicking on a queue of one element).
---
 common/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/queue.go b/common/queue.go
index a837b68..a54e6db 100644
--- a/common/queue.go
+++ b/common/queue.go
@@ -33,7 +33,7 @@ func (q *Queue) DequeueBack() interface{} {
 	n := len(q.data) - 1
 	e := q.data[n]
 	q.data[n] = nil
-	q.data = q.data[1:n]
+	q.data = q.data[:n]
 	if q.cap > sys.MemLowBoundShrink && q.cap >= (len(q.data)<<1) {
 		q.Shrink()
 	}
-- 
2.43.0


From e5e9d29c517debac1e9d692f9f73ee1cbedd6f92 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:30:44 +0000
Subject: [PATCH 02/25] fix: topological sorts order shared nodes after all
 their children

---
 spn/topo.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/spn/topo.go b/spn/topo.go
index a8572fd..71ddc2f 100644
--- a/spn/topo.go
+++ b/spn/topo.go
@@ -43,20 +43,22 @@ func TopSortTarjan(G SPN, C common.Collection) common.Collection {
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
 		if P[u] {
-			C.Give(u)
+			// A node shared at different depths may be on the stack more than once.
+			if !V[u] {
+				V[u] = true
+				C.Give(u)
+			}
 			continue
 		}
 		S.Push(u)
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -77,13 +79,16 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
 		if P[u] {
-			C.Give(u)
-			if !f(u) {
-				return C
+			// A node shared at different depths may be on the stack more than once.
+			if !V[u] {
+				V[u] = true
+				C.Give(u)
+				if !f(u) {
+					return C
+				}
 			}
 			continue
 		}
@@ -91,9 +96,8 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -111,13 +115,17 @@ func TopSortDFS(G SPN, C common.Collection) common.Collection {
 	}
 
 	S.Push(G)
-	V[G] = true
 
 	for !S.Empty() {
 		s := S.Pop().(SPN)
+		if V[s] {
+			// A node shared at different depths may be on the stack more than once.
+			continue
+		}
 		ch := s.Ch()
 		if len(ch) == 0 {
 			C.Give(s)
+			V[s] = true
 		} else {
 			var m []SPN
 			for _, c := range ch {
@@ -127,11 +135,11 @@ func TopSortDFS(G SPN, C common.Collection) common.Collection {
 			}
 			if len(m) == 0 {
 				C.Give(s)
+				V[s] = true
 			} else {
 				S.Push(s)
 				for _, c := range m {
 					S.Push(c)
-					V[c] = true
 				}
 			}
 		}
-- 
2.43.0


From 10ad3e3417c34bc869aa35e27f4223474ef6074d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:40:12 +0000
Subject: [PATCH 03/25] fix: inference and MAP accept a network that is a
 single leaf

---
 spn/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index e0d5e1a..6264960 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -21,7 +21,7 @@ import (
 // InferenceY returns the value of S(I, Y=y). This convenience function allows for fast computation
 // of soft inference values without having to create another VarSet for each valuation of Y.
 func InferenceY(S SPN, I VarSet, Y, y int) float64 {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return 0
 	}
 	J := map[int]int{Y: y}
@@ -64,7 +64,7 @@ func InferenceY(S SPN, I VarSet, Y, y int) float64 {
 
 // Inference simply returns the value of S(I), without storing values for later use.
 func Inference(S SPN, I VarSet) float64 {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return 0
 	}
 	O := common.Queue{}
@@ -104,7 +104,7 @@ func Inference(S SPN, I VarSet) float64 {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreInference creates a new ticket).
 func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return nil, -1
 	}
 
@@ -162,7 +162,7 @@ func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreMAP creates a new ticket).
 func StoreMAP(S SPN, I VarSet, tk int, storage *Storer) (SPN, int, VarSet) {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return nil, -1, nil
 	}
 
-- 
2.43.0


From 272607bf141c930620c906af8171704658618261 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:40:12 +0000
Subject: [PATCH 04/25] fix: Complete and Decomposable look below the root

---
 spn/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index 6264960..b6e2477 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -402,7 +402,7 @@ func Complete(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
@@ -453,7 +453,7 @@ func Decomposable(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
-- 
2.43.0


From 1fd844b749cea58bb1648862d77f54bd2aabe621 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:40:12 +0000
Subject: [PATCH 05/25] fix: norm shifts negative weights up to zero

---
 spn/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/utils.go b/spn/utils.go
index b6e2477..04ab724 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -265,7 +265,7 @@ func norm(v []float64) {
 	}
 	if min < 0 {
 		for i := range v {
-			v[i] += min
+			v[i] -= min
 		}
 	}
 
-- 
2.43.0


From 0ba68c8f620b22dab9f4b2b8d3d939d0a52d08a6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:40:12 +0000
Subject: [PATCH 06/25] fix: Indicator.ArgMax of an unset variable is the
 indicated value

---
 spn/indicator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/indicator.go b/spn/indicator.go
index 4268f1d..a9e0fd0 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -48,7 +48,7 @@ func (i *Indicator) ArgMax(val VarSet) (VarSet, float64) {
 	retval := make(VarSet)
 	u, e := val[i.varid]
 	if !e || u == i.v {
-		retval[i.varid] = u
+		retval[i.varid] = i.v
 		return retval, 0
 	}
 	return retval, utils.LogZero
-- 
2.43.0


From e81ea353e1b66cc6ac466a7d773ece84dcd8349e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:40:12 +0000
Subject: [PATCH 07/25] fix: Sum.Sc copied into a nil slice and returned an
 empty scope

---
 spn/sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/sum.go b/spn/sum.go
index 790eaaf..8a5c9cb 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -33,7 +33,7 @@ func (s *Sum) AddChildW(c SPN, w float64) {
 // Sc returns the scope of this node.
 func (s *Sum) Sc() []int {
 	if s.sc == nil {
-		copy(s.sc, s.ch[0].Sc())
+		s.sc = append(s.sc, s.ch[0].Sc()...)
 	}
 	return s.sc
 }
-- 
2.43.0


From 50c8e1e373469198d280b751eded519b766eea33 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:40:12 +0000
Subject: [PATCH 08/25] fix: degenerate Gaussian leaves are one when unobserved
 and keep evidence in the MAP state

---
 spn/gaussian.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index 9a2f630..8ff4b03 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -115,7 +115,7 @@ func NewGaussianFit(varid int, counts []float64) *Gaussian {
 func (g *Gaussian) Type() string { return "leaf" }
 
 func zeroSigma(v int, ok bool, mu float64) float64 {
-	if ok && v == int(mu) {
+	if !ok || v == int(mu) {
 		return 0
 	}
 	return math.Inf(-1)
@@ -153,9 +153,12 @@ func (g *Gaussian) ArgMax(val VarSet) (VarSet, float64) {
 	retval := make(VarSet)
 	v, ok := val[g.varid]
 
-	if g.dist.Sigma == 0 {
+	if g.dist.Sigma == 0 && !ok {
 		retval[g.varid] = int(g.dist.Mu)
 		return retval, 0.0
+	} else if g.dist.Sigma == 0 {
+		retval[g.varid] = v
+		return retval, zeroSigma(v, ok, g.dist.Mu)
 	} else if ok {
 		retval[g.varid] = v
 		z := g.dist.LogProb(float64(v))
-- 
2.43.0


From 11a3c1df5fd886d828b9a7df0135c7d6faee9e20 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 03:03:47 +0000
Subject: [PATCH 09/25] fix: NewGaussianMode centers the Gaussian on the mode

---
 spn/gaussian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index 8ff4b03..ad61d08 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -89,7 +89,7 @@ func NewGaussianMode(varid int, counts []int) *Gaussian {
 	for i := 0; i < n; i++ {
 		c := float64(counts[i])
 		if c > max {
-			max = c
+			max, mode = c, float64(i)
 		}
 		d := float64(i) - mean
 		sd += (c / float64(N)) * d * d
-- 
2.43.0


From af6b788f84228632e662cf0882464d188cebbb55 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 03:03:47 +0000
Subject: [PATCH 10/25] fix: standard deviation of a Multinomial weighs
 deviations by probability

---
 spn/multinom.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index 9043ac6..d8e580e 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -195,11 +195,11 @@ func (m *Multinomial) Mean() float64 {
 func (m *Multinomial) StdDev() float64 {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return sd
 }
 
@@ -207,11 +207,11 @@ func (m *Multinomial) StdDev() float64 {
 func (m *Multinomial) MuSigma() (float64, float64) {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return mu, sd
 }
 
-- 
2.43.0


From 3512216be51e3dd306dd793387e3a1e2fd12d304 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 03:03:47 +0000
Subject: [PATCH 11/25] fix: Sum.ArgMax accepts evidence of probability zero

---
 spn/sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/sum.go b/spn/sum.go
index 8a5c9cb..e032cd9 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -100,7 +100,7 @@ func (s *Sum) ArgMax(val VarSet) (VarSet, float64) {
 	for i := 0; i < n; i++ {
 		ch := s.ch[i]
 		m := math.Log(s.w[i]) + ch.Max(val)
-		if m > max {
+		if mch == nil || m > max {
 			max, mch = m, ch
 		}
 	}
-- 
2.43.0


From 147765b479efe26681cb7d291870e66753c9f06d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:39:33 +0000
Subject: [PATCH 12/25] fix: ComputeHeight takes the longest path in networks
 with shared nodes

---
 spn/utils.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index 04ab724..887729a 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -307,28 +307,22 @@ func NormalizeSPN(S SPN) SPN {
 
 // ComputeHeight computes the height of a certain SPN S.
 func ComputeHeight(S SPN) int {
-	T := common.Stack{}
-	V := make(map[SPN]int)
-
-	T.Push(S)
-	V[S] = 0
+	T := common.Queue{}
+	TopSortTarjan(S, &T)
 
-	var h int
+	H := make(map[SPN]int)
 	for !T.Empty() {
-		s := T.Pop().(SPN)
-		if s.Type() == "leaf" && V[s] > h {
-			h = V[s]
-		}
-		ch := s.Ch()
-		for _, c := range ch {
-			if _, e := V[c]; !e {
-				T.Push(c)
-				V[c] = V[s] + 1
+		s := T.Dequeue().(SPN)
+		h := 0
+		for _, c := range s.Ch() {
+			if d := H[c] + 1; d > h {
+				h = d
 			}
 		}
+		H[s] = h
 	}
 
-	return h
+	return H[S]
 }
 
 // ComputeScope computes the scope of a certain SPN S.
-- 
2.43.0


From 1cac62a16f67f405103df24a44a7220ba5e9f7c1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:46:56 +0000
Subject: [PATCH 13/25] fix: score.Add copies the predictions of its arguments

---
 score/score.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/score.go b/score/score.go
index 0265655..e127106 100644
--- a/score/score.go
+++ b/score/score.go
@@ -205,7 +205,8 @@ func Add(s, t *S) *S {
 	m.hits = s.hits + t.hits
 	m.misses = s.misses + t.misses
 	m.total = s.total + t.total
-	m.predictions = append(s.predictions, t.predictions...)
+	m.predictions = append(m.predictions, s.predictions...)
+	m.predictions = append(m.predictions, t.predictions...)
 	return m
 }
 
-- 
2.43.0


From d4745eba6689dec55f01e02618d273fd9ecb559b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:46:57 +0000
Subject: [PATCH 14/25] fix: evaluating a score on fewer than ten instances
 does not divide by zero

---
 score/score.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/score/score.go b/score/score.go
index e127106..19ab516 100644
--- a/score/score.go
+++ b/score/score.go
@@ -73,7 +73,7 @@ func (s *S) Evaluate(T spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable
 	sys.Println("Evaluating scores...")
 	n := len(T) / 10
 	for i, I := range T {
-		if i > 0 && i%n == 0 {
+		if i > 0 && n > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
 		l := I[v]
@@ -94,7 +94,7 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 	sys.Println("Evaluating scores...")
 	n := len(T) / 10
 	for i, I := range T {
-		if i > 0 && i%n == 0 {
+		if i > 0 && n > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
 		l := I[v]
@@ -166,7 +166,7 @@ func (s *S) EvaluatePosteriorConc(D spn.Dataset, L []int, N spn.SPN, classVar *l
 				}
 				mu.Lock()
 				s.Register(ml, h[j])
-				if _n := s.total; (_n > 0) && (_n%(len(D)/10) == 0) {
+				if _n, p := s.total, len(D)/10; _n > 0 && p > 0 && _n%p == 0 {
 					sys.Printf("... %d%% ...\n", int(100.0*(float64(_n)/float64(len(D)))))
 				}
 				mu.Unlock()
-- 
2.43.0


From 4e9f95f5e7392595acf0a22ef381eeebb290614c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:50:54 +0000
Subject: [PATCH 15/25] fix: PartitionByLabels distributes leftover instances
 with their own labels

The position within the class was used as an index into the whole dataset.
---
 data/manipulate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index cdcb80c..c146b20 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -157,7 +157,7 @@ func PartitionByLabels(D []map[int]int, L []int, c int, p []float64) ([][]map[in
 		for K[i] < len(R[i]) {
 			l := R[i][K[i]]
 			V := make(map[int]int)
-			copyMap(V, D[l])
+			copyMap(V, D[C[i][l]])
 			M[di] = append(M[di], V)
 			U[di] = append(U[di], i)
 			K[i]++
-- 
2.43.0


From 15792845bcef0df7d4c46b98b724127fa0d95c1d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:50:55 +0000
Subject: [PATCH 16/25] fix: Divide accepts fewer instances than subdatasets

The only subdataset was nil and indexing it panicked.
---
 data/manipulate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index c146b20..a2e2273 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -330,8 +330,8 @@ func Divide(D []map[int]int, L []int, n int) ([][]map[int]int, [][]int) {
 	m := len(D)
 	k, l := m/n, m%n
 	if k == 0 {
-		Gd := make([][]map[int]int, 1)
-		Gl := make([][]int, 1)
+		Gd := [][]map[int]int{make([]map[int]int, m)}
+		Gl := [][]int{make([]int, m)}
 		for i, I := range D {
 			M := make(map[int]int)
 			copyMap(M, I)
-- 
2.43.0


From 120f1ab4a035760d609c7f72a37c1acb619fdb71 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:50:55 +0000
Subject: [PATCH 17/25] fix: Identical compares lengths and scopes of the
 datasets

Datasets of different lengths panicked or compared equal, and a missing
variable equalled a zero. Labels are compared if both exist.
---
 data/manipulate.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index a2e2273..63602f7 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -294,17 +294,25 @@ func Identical(D []map[int]int, E []map[int]int, L []int, M []int) bool {
 	if c && (len(L) != len(D) || len(M) != len(E)) {
 		panic("Length of dataset does not match length of labels.")
 	}
+	if len(D) != len(E) {
+		return false
+	}
 	for i, I := range D {
 		J := E[i]
+		if len(I) != len(J) {
+			return false
+		}
 		for k, v := range I {
-			if v != J[k] {
+			if u, e := J[k]; !e || u != v {
 				return false
 			}
 		}
 	}
-	for i, l := range L {
-		if M[i] != l {
-			return false
+	if c {
+		for i, l := range L {
+			if M[i] != l {
+				return false
+			}
 		}
 	}
 	return true
-- 
2.43.0


From 812c6e8c16589503a49fa7eda9c2370c5b13353e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:50:56 +0000
Subject: [PATCH 18/25] fix: cascadeRounding never yields a negative size

A proportion of zero after one rounded up by exactly one half gave size -1,
which made Partition panic.
---
 data/manipulate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index 63602f7..599f55f 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -13,7 +13,8 @@ func cascadeRounding(p []float64) []int {
 	var t int
 	for i := range p {
 		s += p[i]
-		q[i] = int(math.Round(s - float64(t)))
+		// Round half up: s - t is at least -0.5, and sizes are never negative.
+		q[i] = int(math.Floor(s - float64(t) + 0.5))
 		t += q[i]
 	}
 	return q
-- 
2.43.0


From 301c7b4d659627a67db64e157752ab8fa46fac68 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:48:28 +0000
Subject: [PATCH 19/25] fix: DeriveSPN visits nodes after all their parents

A breadth- or depth-first search reaches a shared node before its derivative is complete when paths
of different length lead to it, and then propagates a partial derivative to its children.
---
 learn/derive.go | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/learn/derive.go b/learn/derive.go
index 61344cf..83add27 100644
--- a/learn/derive.go
+++ b/learn/derive.go
@@ -18,28 +18,24 @@ import (
 // of such sum are the products of each parent node multiplied by all its siblings.
 // It is relevant to note that since GoSPN treats values in logspace, all the derivatives are too
 // in logspace. Argument tk is the ticket to be used for storing the derivatives. Argument itk is
-// the ticket for the stored values of S(X) (i.e. soft inference). A Collection is required for the
-// graph search, though if Collection c is nil, then we use a Queue. If a Queue is used, then the
-// graph search is a breadth-first, if a Stack is used, then it performs a depth-first search.
+// the ticket for the stored values of S(X) (i.e. soft inference). Nodes are visited in topological
+// order; Collection c is not used.
 // If tk < 0, then a new ticket will be created and returned alongside the SPN S.
 // Returns the SPN S and the ticket used.
 func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection) (spn.SPN, int) {
 	if tk < 0 {
 		tk = storage.NewTicket()
 	}
-	if c == nil {
-		c = &common.Queue{}
-	}
 
 	table, _ := storage.Table(tk)
 	inf, _ := storage.Table(itk)
-	visited := make(map[spn.SPN]bool)
 	table.StoreSingle(S, 0.0)
-	c.Give(S)
-	visited[S] = true
+	// Children must come after all their parents, as only then their derivatives are complete.
+	T := &common.Stack{}
+	spn.TopSortTarjan(S, T)
 
-	for !c.Empty() {
-		s := c.Take().(spn.SPN)
+	for !T.Empty() {
+		s := T.Pop().(spn.SPN)
 		ch := s.Ch()
 		pv, _ := table.Single(s)
 		//sys.Printf("pv=%f, parent: %s\n", pv, s.Type())
@@ -54,7 +50,7 @@ func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection)
 					table.StoreSingle(cs, utils.LogSumExpPair(v, math.Log(W[i])+pv))
 				}
 			}
-		} else /* there can never be a case where s is a leaf, therefore s is a product */ {
+		} else /* s is a product, or a leaf and has no children */ {
 			for i, cs := range ch {
 				v, e := table.Single(cs)
 				t := pv
@@ -73,17 +69,8 @@ func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection)
 				}
 			}
 		}
-
-		for _, cs := range ch {
-			if cs.Type() != "leaf" && !visited[cs] {
-				c.Give(cs)
-				visited[cs] = true
-			}
-		}
 	}
 
-	visited = nil
-	c = nil
 	sys.Free()
 	return S, tk
 }
-- 
2.43.0


From a4bb4a12369b205304d08042ca9dc25c92cede41 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 10:40:59 +0000
Subject: [PATCH 20/25] fix: LogSum of probabilities that are all zero is
 ln(0), not NaN

---
 utils/log.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/log.go b/utils/log.go
index 49de4a3..ac03e41 100644
--- a/utils/log.go
+++ b/utils/log.go
@@ -50,6 +50,9 @@ func LogSum(p []float64) float64 {
 			pi = lp
 		}
 	}
+	if math.IsInf(pi, -1) {
+		return pi
+	}
 
 	lg := 0.0
 	for i := 0; i < n; i++ {
-- 
2.43.0


From 7953e8fd01ff4ee7d4dfa70c8531bbf5a1249f70 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 10:40:59 +0000
Subject: [PATCH 21/25] fix: LogSumPair(0, p) is ln(p), not NaN

---
 utils/log.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/log.go b/utils/log.go
index ac03e41..229ecbd 100644
--- a/utils/log.go
+++ b/utils/log.go
@@ -89,6 +89,9 @@ func AntiLog(l float64) float64 {
 // LogSumPair is the result of the operation:
 // 	ln(p1+p2)=ln(p1)+ln(1+p2/p1)
 func LogSumPair(p1, p2 float64) float64 {
+	if p1 == 0 {
+		return Log(p2)
+	}
 	return Log(p1) + Log(1.0+(p2/p1))
 }
 
-- 
2.43.0


From 32bb997b143a059c8d1dfeaf7286a2a8ac03ffeb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 10:49:47 +0000
Subject: [PATCH 22/25] fix: DBSCANData numbers its clusters from 0 to k-1,
 instead of by their representative's index

---
 utils/cluster/dbscan.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cluster/dbscan.go b/utils/cluster/dbscan.go
index 5d52a7a..63dfd04 100644
--- a/utils/cluster/dbscan.go
+++ b/utils/cluster/dbscan.go
@@ -108,11 +108,11 @@ func DBSCANData(data []map[int]int, eps float64, mp int) [][]map[int]int {
 	rgs := dbscanInternal(M, eps, mp)
 	G := make([]int, len(M))
 	var k int
-	for i, u := range rgs {
+	for _, u := range rgs {
 		if u.Pa == u {
 			ch := utils.UFVarids(u)
 			for _, c := range ch {
-				G[c] = i
+				G[c] = k
 			}
 			k++
 		}
-- 
2.43.0


From e66062a6c7dfd56bef984036993042488a592746 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 10:49:47 +0000
Subject: [PATCH 23/25] fix: KMeansData(F) uses column names as instance
 indices, so that instances overwrite each other

---
 utils/cluster/kmeans.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index b83441a..a680e01 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -123,8 +123,8 @@ func KMeans(k int, data [][]int) []map[int][]int {
 }
 
 func KMeansData(k int, data []map[int]int) []map[int][]int {
-	D, Sc := learn.DataToMatrix(data)
-	return KMeansMuesli(k, D, Sc)
+	D, _ := learn.DataToMatrix(data)
+	return KMeansMuesli(k, D, nil)
 }
 
 func OldKMeans(k int, data [][]int) []map[int][]int {
@@ -220,8 +220,8 @@ func KMeansF(k int, D [][]float64, sc map[int]int) []map[int][]float64 {
 }
 
 func KMeansFData(k int, D []map[int]int) []map[int][]float64 {
-	E, Sc := learn.DataToMatrixF(D)
-	return KMeansMuesliF(k, E, Sc)
+	E, _ := learn.DataToMatrixF(D)
+	return KMeansMuesliF(k, E, nil)
 }
 
 func OldKMeansF(k int, D [][]float64, F metrics.MetricF) []map[int][]float64 {
-- 
2.43.0


From 289f000c13a80c917409cde076def69e97b6920b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 11:35:58 +0000
Subject: [PATCH 24/25] fix: saved sum weights and multinomial probabilities
 keep all their digits

---
 spn/multinom.go | 2 +-
 spn/sum.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index d8e580e..cc6ebaf 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -220,7 +220,7 @@ func (m *Multinomial) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d %d", m.varid, len(m.pr))
 	for _, p := range m.pr {
-		fmt.Fprintf(&b, " %f", p)
+		fmt.Fprintf(&b, " %v", p)
 	}
 	return b.Bytes(), nil
 }
diff --git a/spn/sum.go b/spn/sum.go
index e032cd9..c5466b4 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -138,7 +138,7 @@ func (s *Sum) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d", len(s.w))
 	for _, w := range s.w {
-		fmt.Fprintf(&b, " %f", w)
+		fmt.Fprintf(&b, " %v", w)
 	}
 	return b.Bytes(), nil
 }
-- 
2.43.0


From 047ce486af74aa437e9be4cbaa4bd4245ee2046d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 11:35:58 +0000
Subject: [PATCH 25/25] fix: a loaded indicator has its variable as scope

---
 spn/indicator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spn/indicator.go b/spn/indicator.go
index a9e0fd0..7b49d7c 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -71,5 +71,6 @@ func (i *Indicator) GobEncode() ([]byte, error) {
 func (i *Indicator) GobDecode(data []byte) error {
 	b := bytes.NewBuffer(data)
 	_, err := fmt.Fscanf(b, "%d %d", &i.varid, &i.v)
+	i.sc = []int{i.varid}
 	return err
 }
-- 
2.43.0

