# ---- MCMC center store (C17) ---------------------------------------------------
# a list is stored under its own length
def STOREOK(s: *mcmc.CenterStore): bool := s.centers != nil && (forall n {s.centers[n]} :: dom(s.centers, n) ==> len(s.centers[n]) == n)

func mcmc.NewCenterStore(rgen) (r)
  ensures [empty] r.centers != nil && fresh(r.centers) && r.rgen == rgen && (forall n {dom(r.centers, n)} :: !dom(r.centers, n))

func mcmc.(*CenterStore).SetCenters(store, clust) ()
  requires store != nil && store.centers != nil
  modifies mapof(store.centers)
  ensures [stored] dom(store.centers, len(clust)) && store.centers[len(clust)] == clust
  ensures [others] forall n {dom(store.centers, n)} :: n != len(clust) ==> (dom(store.centers, n) <==> old(dom(store.centers, n)))
  ensures [otherlists] forall n {store.centers[n]} :: n != len(clust) ==> store.centers[n] == old(store.centers[n])
  ensures [wf] old(STOREOK(store)) ==> STOREOK(store)

func mcmc.(*CenterStore).addCenter(store, data, space, prevK, prev) (clust, err)
  requires store != nil && space != nil && store.rgen != nil
  requires len(data) > 0 && len(prev) > 0 && prevK == len(prev)
  requires forall a: iface, b: iface {DIST(space, a, b)} :: DIST(space, a, b) >= 0.0
  modifies g.u
  ensures [copies] len(clust) == prevK + 1 && fresh(clust) && (forall i :: 0 <= i < prevK ==> EQE(clust[i], prev[i]))
  ensures [more] isnil(err) ==> exists q {data[q]} :: 0 <= q < len(data) && EQE(clust[prevK], data[q]) && (forall j :: 0 <= j < prevK ==> DIST(space, clust[prevK], prev[j]) > 0.0)
  ensures [fail] !isnil(err) ==> forall q {data[q]} :: 0 <= q < len(data) ==> exists j {prev[j]} :: 0 <= j < prevK && DIST(space, data[q], prev[j]) == 0.0
  inv ($i: phi int, $c: core.Clust) forall j :: 0 <= j < $i ==> EQE($c[j], prev[j])

func mcmc.(*CenterStore).delCenter(store, space, prevK, prev) (clust)
  requires store != nil && space != nil && store.rgen != nil
  requires len(prev) > 0 && prevK == len(prev)
  ensures [count] len(clust) == prevK - 1 && fresh(clust)
  ensures [less] exists x {MK(x)} :: 0 <= x < prevK && (forall i :: 0 <= i < prevK - 1 ==> EQE(clust[i], ite(i < x, prev[i], prev[i + 1])))
  inv ($i: phi int, $c: core.Clust, $x: int) forall j :: 0 <= j < $i ==> EQE($c[j], ite(j < $x, prev[j], prev[j + 1]))

func mcmc.(*CenterStore).GetCenters(store, data, space, k, clust) (r, err)
  requires store != nil && space != nil && store.rgen != nil && STOREOK(store)
  requires len(data) > 0 && len(clust) > 0 && k >= 1
  requires dom(store.centers, k) || (len(clust) - 1 <= k && k <= len(clust) + 1)
  requires forall a: iface, b: iface {DIST(space, a, b)} :: DIST(space, a, b) >= 0.0
  modifies g.u
  ensures [count] isnil(err) ==> len(r) == k
  ensures [stored] dom(store.centers, k) ==> isnil(err) && r == store.centers[k]
  ensures [same] !dom(store.centers, k) && len(clust) == k ==> isnil(err) && r == clust
  ensures [copies] !dom(store.centers, k) && len(clust) == k - 1 ==> len(r) == k && fresh(r) && (forall i :: 0 <= i < k - 1 ==> EQE(r[i], clust[i]))
  ensures [more] !dom(store.centers, k) && len(clust) == k - 1 && isnil(err) ==> exists q {data[q]} :: 0 <= q < len(data) && EQE(r[k - 1], data[q]) && (forall j :: 0 <= j < k - 1 ==> DIST(space, r[k - 1], clust[j]) > 0.0)
  ensures [fail] !isnil(err) ==> !dom(store.centers, k) && len(clust) == k - 1 && (forall q {data[q]} :: 0 <= q < len(data) ==> exists j {clust[j]} :: 0 <= j < k - 1 && DIST(space, data[q], clust[j]) == 0.0)
  ensures [less] !dom(store.centers, k) && len(clust) == k + 1 ==> isnil(err) && fresh(r) && (exists x {MK(x)} :: 0 <= x < k + 1 && (forall i :: 0 <= i < k ==> EQE(r[i], ite(i < x, clust[i], clust[i + 1]))))

property C17
  verify mcmc.NewCenterStore, mcmc.(*CenterStore).SetCenters, mcmc.(*CenterStore).addCenter, mcmc.(*CenterStore).delCenter, mcmc.(*CenterStore).GetCenters
