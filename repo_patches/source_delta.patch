From 61e477f3d5c5c99e419bcd3b4c81ee0a588aaabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 01/16] fix: nearest keeps a centroid at a negative rounded
 distance

---
 core/clustering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/clustering.go b/core/clustering.go
index 368697e..919ccf9 100644
--- a/core/clustering.go
+++ b/core/clustering.go
@@ -143,7 +143,7 @@ func (c *Clust) nearest(elemt Elemt, space Space) (label int, min float64) {
 	label = -1
 
 	for i := 0; i < len(*c); i++ {
-		if d := space.Dist(elemt, (*c)[i]); min < 0 || min > d {
+		if d := space.Dist(elemt, (*c)[i]); label < 0 || min > d {
 			min = d
 			label = i
 		}
-- 
2.43.0


From ee4f888d3032cd1fae99608723566894c9e0fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 02/16] fix: Play releases the status lock when initialization
 fails

---
 core/ctrl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index f1889c3..d979c99 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -109,6 +109,7 @@ func (algo *Algo) Play() (err error) {
 	case Created:
 		err = algo.init()
 		if err != nil && err != ErrAlreadyCreated {
+			algo.statusMutex.Unlock()
 			return
 		}
 		err = nil
-- 
2.43.0


From 67e1185e12ae351c7ff6d0a8bb76c0a614ffc0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 03/16] fix: Push reads the status before taking the model lock

---
 core/ctrl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index d979c99..4ce0c77 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -22,11 +22,13 @@ type OCCtrl interface {
 func (algo *Algo) Push(elemt Elemt) (err error) {
 	err = algo.impl.Push(elemt, algo)
 	if err == nil {
+		// status lock must not be acquired while model lock is held
+		var status = algo.Status()
 		algo.modelMutex.Lock()
 		algo.pushedData++
 		algo.lastDataTime = time.Now().Unix()
 		var conf = algo.conf.Ctrl()
-		if algo.Status().Value == Ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData {
+		if status.Value == Ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData {
 			algo.newData = 0
 		} else {
 			algo.newData++
-- 
2.43.0


From bf8bb489d6aa6888b50a22ec746fba765abb9ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 04/16] fix: Push releases the model lock before playing

---
 core/ctrl.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 4ce0c77..3002baa 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -34,11 +34,10 @@ func (algo *Algo) Push(elemt Elemt) (err error) {
 			algo.newData++
 		}
 		algo.updateRuntimeFigures()
+		var play = algo.newData == 0
 		algo.modelMutex.Unlock()
 		// try to play if waiting
-		algo.modelMutex.RLock()
-		defer algo.modelMutex.RUnlock()
-		if algo.newData == 0 {
+		if play {
 			algo.Play()
 		}
 	}
-- 
2.43.0


From 9dbbcce37ee858cf7960da734ad8791462291555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 05/16] fix: WeightedChoice always returns an index of positive
 weight

---
 kmeans/init.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index 600abe1..fa5d147 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -100,7 +100,7 @@ func RandInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Ran
 // WeightedChoice returns random index given corresponding weights
 func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {
 	var sum float64
-	var idx int
+	var idx = -1
 
 	for _, x := range weights {
 		sum += x
@@ -111,10 +111,15 @@ func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {
 	}
 
 	var cursor = rand.Float64() * sum
-	for cursor > 0 {
-		cursor -= weights[idx]
-		idx++
+	for i, x := range weights {
+		if x > 0 {
+			idx = i
+			if cursor <= x {
+				break
+			}
+			cursor -= x
+		}
 	}
 
-	return idx - 1, nil
+	return idx, nil
 }
-- 
2.43.0


From f3f1d2eaaf7ce74f8805fd8ec300e4986f4b3812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 06/16] fix: initializers return no centroids on error and do
 not panic on negative k

---
 kmeans/init.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index fa5d147..b703c0f 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -49,15 +49,20 @@ func GivenInitializer(k int, elemts []core.Elemt, space core.Space, _ *rand.Rand
 // PPInitializer initializes a clustering algorithm with kmeans++
 func PPInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
+
 		var draw = src.Intn(len(elemts))
 		centroids[0] = elemts[draw]
 
 		for i := 1; i < k && err == nil; i++ {
 			centroids[i], err = PPIter(centroids[:i], elemts, space, src)
 		}
+
+		if err != nil {
+			centroids = nil
+		}
 	}
 
 	return
@@ -76,9 +81,10 @@ var ErrNullSet = errors.New("cannot draw over an empty set")
 // RandInitializer initializes a clustering with random testPoints
 func RandInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
+
 		var chosen = make(map[int]int)
 		var i int
 
-- 
2.43.0


From 4a6af99fbfb7b6320d8a219b78ed5b8de0c21578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 07/16] fix: a failed initialization publishes no centroids

---
 core/ctrl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 3002baa..e8438f1 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -84,10 +84,10 @@ func (algo *Algo) init() (err error) {
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
 		centroids, err = algo.impl.Init(algo)
-		algo.modelMutex.Lock()
-		algo.centroids = centroids
-		algo.modelMutex.Unlock()
 		if err == nil {
+			algo.modelMutex.Lock()
+			algo.centroids = centroids
+			algo.modelMutex.Unlock()
 			algo.setStatus(NewOCStatus(Ready), false)
 		} else {
 			algo.setStatus(NewOCStatusError(err), false)
-- 
2.43.0


From ac9317b89872281d4daeb0b038738e5cfa364697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 08/16] fix: LateDistrib accesses its fields only under its
 lock

---
 mcmc/latedistrib.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/mcmc/latedistrib.go b/mcmc/latedistrib.go
index 488910f..be39282 100644
--- a/mcmc/latedistrib.go
+++ b/mcmc/latedistrib.go
@@ -27,27 +27,20 @@ func NewLateDistrib(initializer DistribBuilder) *LateDistrib {
 
 // Sample initializes the wrapped Distrib if necessary then forward to its Sample method
 func (d *LateDistrib) Sample(mu core.Elemt, time int) core.Elemt {
-	d.initialize(mu)
-	return d.distrib.Sample(mu, time)
+	return d.initialize(mu).Sample(mu, time)
 }
 
 // Pdf initializes the wrapped Distrib if necessary then forward to its Pdf method
 func (d *LateDistrib) Pdf(x, mu core.Elemt, time int) float64 {
-	d.initialize(mu)
-	return d.distrib.Pdf(x, mu, time)
+	return d.initialize(mu).Pdf(x, mu, time)
 }
 
-func (d *LateDistrib) initialize(elemt core.Elemt) {
-	if !d.initialized {
-		d.tryInitialize(elemt)
-	}
-}
-
-func (d *LateDistrib) tryInitialize(elemt core.Elemt) {
+func (d *LateDistrib) initialize(elemt core.Elemt) Distrib {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 	if !d.initialized {
 		d.distrib = d.initializer(elemt)
 		d.initialized = true
 	}
+	return d.distrib
 }
-- 
2.43.0


From 8f9a795eb5b7ae58a40efb0c5505e38f8f7562ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 09/16] fix: streaming publishes a copy of its list of centers

---
 streaming/impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streaming/impl.go b/streaming/impl.go
index 84b3730..619fb87 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -62,7 +62,7 @@ func (impl *Impl) Iterate(model core.OCModel) (clust core.Clust, runtimeFigures
 	select {
 	case elemt := <-impl.c:
 		impl.Process(elemt, model.Space())
-		clust = impl.clust
+		clust = append(core.Clust(nil), impl.clust...)
 	default:
 	}
 	runtimeFigures = impl.runtimeFigures()
-- 
2.43.0


From 3cbe2893f5c568ac72c1e744aa9f7ed77be43a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 10/16] fix: RuntimeFigures returns a copy of the figures

---
 core/model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/model.go b/core/model.go
index 6a422f0..34120f0 100644
--- a/core/model.go
+++ b/core/model.go
@@ -28,7 +28,11 @@ func (algo *Algo) Space() Space {
 func (algo *Algo) RuntimeFigures() (figures RuntimeFigures) {
 	algo.modelMutex.RLock()
 	defer algo.modelMutex.RUnlock()
-	return algo.runtimeFigures
+	figures = make(RuntimeFigures, len(algo.runtimeFigures))
+	for name, value := range algo.runtimeFigures {
+		figures[name] = value
+	}
+	return
 }
 
 // Conf returns configuration
-- 
2.43.0


From 5edcddef7b829bdfa57f755d3231b36af1f68782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:15 +0000
Subject: [PATCH 11/16] fix: a command queued after the end of a run cannot
 revive or clear it

---
 core/ctrl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index e8438f1..a4c6212 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -227,7 +227,8 @@ func (algo *Algo) recover(start time.Time) {
 	select {
 	// get client status if client quiered to stop or timeout interruption
 	case status := <-algo.statusChannel:
-		if recovery == nil {
+		// the run is over: only a stop still applies, and not to a finished algorithm
+		if status.Value == Finished && algo.status.Value != Finished {
 			algo.setStatus(status, false)
 		}
 	default:
-- 
2.43.0


From 02ac7d9ddb3b81c67247cba1f36ed622b42e15e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:16 +0000
Subject: [PATCH 12/16] fix: a panic of the initialization becomes its error
 and leaves no lock held

---
 core/ctrl.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index a4c6212..2cc2fbe 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -83,7 +83,7 @@ func (algo *Algo) init() (err error) {
 		}
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
-		centroids, err = algo.impl.Init(algo)
+		centroids, err = algo.initImpl()
 		if err == nil {
 			algo.modelMutex.Lock()
 			algo.centroids = centroids
@@ -98,6 +98,16 @@ func (algo *Algo) init() (err error) {
 	return
 }
 
+// initImpl initializes the implementation. A panic becomes an initialization error.
+func (algo *Algo) initImpl() (centroids Clust, err error) {
+	defer func() {
+		if recovery := recover(); recovery != nil {
+			err = fmt.Errorf("%v", recovery)
+		}
+	}()
+	return algo.impl.Init(algo)
+}
+
 // Play the algorithm in online mode
 func (algo *Algo) Play() (err error) {
 	algo.statusMutex.Lock()
-- 
2.43.0


From c7381e6a1b323054395d37c6053105836c73311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:17 +0000
Subject: [PATCH 13/16] fix: Play reports every initialization error

---
 core/ctrl.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 2cc2fbe..30bb44c 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -119,11 +119,10 @@ func (algo *Algo) Play() (err error) {
 		fallthrough
 	case Created:
 		err = algo.init()
-		if err != nil && err != ErrAlreadyCreated {
+		if err != nil {
 			algo.statusMutex.Unlock()
 			return
 		}
-		err = nil
 		fallthrough
 	case Ready:
 		go algo.run()
-- 
2.43.0


From 3a25dddfd7b4156b2d231f07d52968551262aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:05 +0000
Subject: [PATCH 14/16] fix: the result of an interruption is read under the
 status lock

---
 core/ctrl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 30bb44c..be0c30a 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -195,7 +195,7 @@ func (algo *Algo) interrupt(interruption error) (err error) {
 	case Running:
 		algo.statusMutex.Unlock()
 		algo.sendStatus(NewOCStatusError(interruption))
-		err = algo.status.Error
+		err = algo.Status().Error
 	default:
 		algo.statusMutex.Unlock()
 		err = ErrNotAlive
-- 
2.43.0


From 9e50fb3ee87ed96a8c49ae305dad0fcc1fe643ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:16 +0000
Subject: [PATCH 15/16] fix: an iteration is given a copy of the runtime
 figures

---
 core/ctrl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index be0c30a..fc452a2 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -291,7 +291,7 @@ func (algo *Algo) run() {
 			// newData = algo.newData
 			centroids, runtimeFigures, err = algo.impl.Iterate(
 				NewSimpleOCModel(
-					algo.conf, algo.space, algo.status, algo.runtimeFigures, algo.centroids,
+					algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.centroids,
 				),
 			)
 			duration = time.Now().Sub(start)
-- 
2.43.0


From 86a3d1281a731d1edc0b6bdb0e8a955144a05059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:36 +0000
Subject: [PATCH 16/16] fix: without a window, the DTW window covers the
 longest series whichever comes first

---
 dtw/cost.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtw/cost.go b/dtw/cost.go
index 7f59c2f..bde58b3 100644
--- a/dtw/cost.go
+++ b/dtw/cost.go
@@ -51,6 +51,9 @@ func (cumCost *CumCostMatrix) Path() []Ends {
 func (cumCost *CumCostMatrix) setStride(shortest int, longest int) {
 	if cumCost.window == 0 {
 		cumCost.window = longest
+		if shortest > longest {
+			cumCost.window = shortest
+		}
 	}
 	var maxWindow = 2*cumCost.window + 1
 	cumCost.stride0 = shortest
-- 
2.43.0

