# ---- weighted choice and initializers (C13, C12) ------------------------------
# SUMW(w, n): sum of the n first weights
rec SUMW(w: seq[real], n: int): real on n := ite(n <= 0, 0.0, SUMW(w, n - 1) + w[n - 1])
lemma SUMWpos(w: seq[real], n: int) induction n
  requires 0 <= n <= len(w) && (forall i :: 0 <= i < len(w) ==> w[i] >= 0.0)
  ensures SUMW(w, n) >= 0.0 && (forall i :: 0 <= i < n ==> SUMW(w, n) >= w[i]) && (SUMW(w, n) > 0.0 ==> (exists i :: 0 <= i < n && w[i] > 0.0))
  trigger SUMW(w, n)

ghost u: real
extern rand.(*Rand).Float64(r) (f)
  requires r != nil
  modifies g.u
  ensures f >= 0.0 && f < 1.0 && f == g.u
  flag noalloc yes

extern rand.(*Rand).Intn(r, n) (k)
  requires r != nil && n > 0
  ensures 0 <= k && k < n
  flag noalloc yes

func kmeans.WeightedChoice(weights, rand) (idx, err)
  requires rand != nil
  requires forall i :: 0 <= i < len(weights) ==> weights[i] >= 0.0
  modifies g.u
  use SUMWpos
  ensures [error] !isnil(err) <==> SUMW(weights, len(weights)) == 0.0
  ensures [iff] isnil(err) <==> (exists i :: 0 <= i < len(weights) && weights[i] > 0.0)
  ensures [range] isnil(err) ==> 0 <= idx < len(weights)
  ensures [errindex C12 C15 C16 C17] !isnil(err) ==> idx == 0
  ensures [positive] isnil(err) ==> weights[idx] > 0.0
  ensures [interval C13] isnil(err) ==> SUMW(weights, idx) <= g.u * SUMW(weights, len(weights)) && g.u * SUMW(weights, len(weights)) <= SUMW(weights, idx + 1)
  inv ($i: phi int, $s: phi real) $s == SUMW(weights, $i)
  inv ($i: phi int, $s: phi real) $s == g.u * SUMW(weights, len(weights)) - SUMW(weights, $i)
  inv ($s: phi real) $s >= 0.0
  inv ($i: phi int, $k: phi int) $k >= 0 ==> $k < $i && weights[$k] > 0.0
  inv ($i: phi int, $k: phi int, $s: phi real) forall j :: $k < j < $i ==> weights[j] <= 0.0
  inv ($i: phi int, $k: phi int, $s: phi real) $k >= 0 ==> g.u * SUMW(weights, len(weights)) > SUMW(weights, $k + 1)

property C13
  verify kmeans.WeightedChoice
  lemmas SUMWpos

extern runtime.NumCPU() (n)
  ensures n >= 1
  flag noalloc yes

# one element drawn among those at non-zero distance from all given centers
func kmeans.PPIter(clust, elemts, space, src) (r, err)
  requires space != nil && src != nil
  requires len(elemts) > 0 && len(clust) > 0
  requires forall a: iface, b: iface {DIST(space, a, b)} :: DIST(space, a, b) >= 0.0
  modifies g.u
  ensures [element] isnil(err) ==> exists q {elemts[q]} :: 0 <= q < len(elemts) && EQE(r, elemts[q]) && (forall j :: 0 <= j < len(clust) ==> DIST(space, elemts[q], clust[j]) > 0.0 && DIST(space, r, clust[j]) > 0.0)
  ensures [fail] !isnil(err) ==> forall q {elemts[q]} :: 0 <= q < len(elemts) ==> exists j {clust[j]} :: 0 <= j < len(clust) && DIST(space, elemts[q], clust[j]) == 0.0
  use NLprops

func kmeans.GivenInitializer(k, elemts, space, src) (centroids, err)
  requires space != nil
  ensures [iff] isnil(err) <==> k >= 1 && len(elemts) >= k
  ensures [none] !isnil(err) ==> isnil(centroids)
  ensures [count] isnil(err) ==> len(centroids) == k
  ensures [fresh] isnil(err) ==> fresh(centroids)
  ensures [first] isnil(err) ==> forall i :: 0 <= i < k ==> EQE(centroids[i], elemts[i])
  inv ($i: phi int, $c: []iface) forall j :: 0 <= j < $i ==> EQE($c[j], elemts[j])

# marks an index to instantiate a clause with (keeps instantiation from looping)
spec MK(i: int): bool
func kmeans.PPInitializer(k, elemts, space, src) (centroids, err)
  requires space != nil && src != nil
  requires forall a: iface, b: iface {DIST(space, a, b)} :: DIST(space, a, b) >= 0.0
  modifies g.u
  use EQErefl
  ensures [bad] k < 1 || len(elemts) < k ==> !isnil(err)
  ensures [none] !isnil(err) ==> isnil(centroids)
  ensures [count] isnil(err) ==> len(centroids) == k
  ensures [fresh] isnil(err) ==> fresh(centroids)
  ensures [elements] isnil(err) ==> forall i {MK(i)} :: 0 <= i < k ==> exists q {old(elemts[q])} :: 0 <= q < len(elemts) && EQE(centroids[i], old(elemts[q]))
  ensures [apart] isnil(err) ==> forall i {MK(i)} :: 0 <= i < k ==> forall j {centroids[j]} :: 0 <= j < i ==> DIST(space, centroids[i], centroids[j]) > 0.0
  ensures [fail] ($n: phi int, $c: []iface) !isnil(err) && k >= 1 && len(elemts) >= k ==> 0 < $n < k && (forall q {elemts[q]} :: 0 <= q < len(elemts) ==> exists j {$c[j]} :: 0 <= j < $n && DIST(space, elemts[q], $c[j]) == 0.0)
  inv ($i: phi int, $e: phi iface, $c: []iface) isnil($e) ==> forall i {MK(i)} :: 0 <= i < $i ==> exists q {old(elemts[q])} :: 0 <= q < len(elemts) && EQE($c[i], old(elemts[q]))
  inv ($i: phi int, $e: phi iface, $c: []iface) isnil($e) ==> forall i {MK(i)} :: 0 <= i < $i ==> forall j {$c[j]} :: 0 <= j < i ==> DIST(space, $c[i], $c[j]) > 0.0
  inv ($i: phi int, $e: phi iface, $c: []iface) !isnil($e) ==> 1 < $i
  inv ($i: phi int, $e: phi iface, $c: []iface) !isnil($e) ==> forall q {elemts[q]} :: 0 <= q < len(elemts) ==> exists j {$c[j]} :: 0 <= j < $i - 1 && DIST(space, elemts[q], $c[j]) == 0.0

# positions: the map gives to each chosen position its rank, so different ranks have different positions
func kmeans.RandInitializer(k, elemts, space, src) (centroids, err)
  requires space != nil && src != nil
  ensures [iff] isnil(err) <==> k >= 1 && len(elemts) >= k
  ensures [none] !isnil(err) ==> isnil(centroids)
  ensures [count] isnil(err) ==> len(centroids) == k
  ensures [fresh] isnil(err) ==> fresh(centroids)
  ensures [positions] ($m: map[int]int) isnil(err) ==> forall j {centroids[j]} :: 0 <= j < k ==> exists q {$m[q]} :: 0 <= q < len(elemts) && $m[q] == j && EQE(centroids[j], old(elemts[q]))
  inv ($i: phi int, $m: map[int]int, $c: []iface) forall q :: dom($m, q) ==> 0 <= q < len(elemts)
  inv ($i: phi int, $m: map[int]int, $c: []iface) forall j {$c[j]} :: 0 <= j < $i ==> exists q {$m[q]} :: 0 <= q < len(elemts) && dom($m, q) && $m[q] == j && EQE($c[j], old(elemts[q]))

# the table of named initializers, as package initialization leaves it (nothing else writes it)
func kmeans.init()
  flag noframe yes
  requires !kmeans.initguard
  ensures [table] kmeans.initializersByNames != nil && dom(kmeans.initializersByNames, "given") && isfn(kmeans.initializersByNames["given"], kmeans.GivenInitializer) && dom(kmeans.initializersByNames, "pp") && isfn(kmeans.initializersByNames["pp"], kmeans.PPInitializer) && dom(kmeans.initializersByNames, "rand") && isfn(kmeans.initializersByNames["rand"], kmeans.RandInitializer)
spec LOWER(s: string): string
extern strings.ToLower(s) (r)
  ensures r == LOWER(s)
  flag noalloc yes
func kmeans.CreateInitializer(name) (r)
  requires kmeans.initializersByNames != nil && dom(kmeans.initializersByNames, "given") && isfn(kmeans.initializersByNames["given"], kmeans.GivenInitializer) && dom(kmeans.initializersByNames, "pp") && isfn(kmeans.initializersByNames["pp"], kmeans.PPInitializer) && dom(kmeans.initializersByNames, "rand") && isfn(kmeans.initializersByNames["rand"], kmeans.RandInitializer)
  ensures [given] LOWER(name) == "given" ==> isfn(r, kmeans.GivenInitializer)
  ensures [pp] LOWER(name) == "pp" ==> isfn(r, kmeans.PPInitializer)
  ensures [rand] LOWER(name) == "rand" ==> isfn(r, kmeans.RandInitializer)

property C12
  verify kmeans.init, kmeans.CreateInitializer, kmeans.GivenInitializer, kmeans.PPIter, kmeans.PPInitializer, kmeans.RandInitializer
  lemmas NLprops, SUMWpos
