# ---- k-means iteration (C14) ---------------------------------------------------
# what a model answers while an iteration runs (nothing but the iteration itself changes it)
spec MCBASE(m: iface): int
spec MCOFF(m: iface): int
spec MCENTN(m: iface): int
spec MSPACE(m: iface): iface
spec MCONF(m: iface): iface

iface core.OCModel.Centroids(m) (c)
  ensures base(c) == MCBASE(m) && off(c) == MCOFF(m) && len(c) == MCENTN(m)
iface core.OCModel.Space(m) (s)
  ensures s == MSPACE(m)
  flag noalloc yes
iface core.OCModel.Conf(m) (c)
  ensures c == MCONF(m)
  flag noalloc yes

# the answers of a simple model are its fields
axiom SIMPLE(m: iface)
  ensures typeis(m, core.SimpleOCModel) ==> MCBASE(m) == base(unbox(m, core.SimpleOCModel).centroids) && MCOFF(m) == off(unbox(m, core.SimpleOCModel).centroids) && MCENTN(m) == len(unbox(m, core.SimpleOCModel).centroids) && MSPACE(m) == unbox(m, core.SimpleOCModel).space && MCONF(m) == unbox(m, core.SimpleOCModel).conf
  trigger MCBASE(m)
  trigger MCENTN(m)
  trigger MSPACE(m)
  trigger MCONF(m)
func core.SimpleOCModel.Centroids(model) (c)
  ensures [field] c == model.centroids
func core.SimpleOCModel.Space(model) (s)
  ensures [field] s == model.space
func core.SimpleOCModel.Conf(model) (c)
  ensures [field] c == model.conf
func core.NewSimpleOCModel(conf, space, status, figures, centroids) (r)
  ensures [type] typeis(r, core.SimpleOCModel)
  ensures [fields] unbox(r, core.SimpleOCModel).conf == conf && unbox(r, core.SimpleOCModel).space == space && unbox(r, core.SimpleOCModel).centroids == centroids && unbox(r, core.SimpleOCModel).status.Value == status.Value
dispatch kmeans.Strategy: *kmeans.SeqStrategy, kmeans.ParStrategy
def DB(b: iface): ref := unbox(b, *core.DataBuffer)
dispatch core.Buffer: *core.DataBuffer

# LLOYD: r is the list of the means of the elements nearest to each of the n centroids c, and
# the centroid itself where there is none
func kmeans.(*SeqStrategy).Iterate(strategy, space, centroids, data) (r)
  requires strategy != nil && space != nil && len(centroids) > 0
  requires forall i :: 0 <= i < len(data) ==> !isnil(data[i])
  ensures [count C14 C15 C16] len(r) == len(centroids) && off(r) == 0 && fresh(r)
  ensures [kept C14] forall k :: 0 <= k < len(centroids) && CNTN(space, centroids, row(data), off(data), len(data), k) == 0 ==> r[k] == centroids[k]
  ensures [mean C14] forall k, d {CO(r[k], d)} :: 0 <= k < len(centroids) && CNTN(space, centroids, row(data), off(data), len(data), k) > 0 ==> TOT(r[k], d, CNTN(space, centroids, row(data), off(data), len(data), k)) == SUMN(space, centroids, row(data), off(data), len(data), k, d)
  use CNTNpos
  inv ($i: phi int, $r: core.Clust) forall k :: 0 <= k < $i && CNTN(space, centroids, row(data), off(data), len(data), k) == 0 ==> $r[k] == centroids[k]
  inv ($i: phi int, $r: core.Clust) forall k :: $i <= k < len(centroids) && CNTN(space, centroids, row(data), off(data), len(data), k) == 0 ==> isnil($r[k])
  inv ($r: core.Clust) forall k :: 0 <= k < len(centroids) && CNTN(space, centroids, row(data), off(data), len(data), k) > 0 ==> !isnil($r[k])
  inv ($r: core.Clust) forall k, d {CO($r[k], d)} :: 0 <= k < len(centroids) && CNTN(space, centroids, row(data), off(data), len(data), k) > 0 ==> TOT($r[k], d, CNTN(space, centroids, row(data), off(data), len(data), k)) == SUMN(space, centroids, row(data), off(data), len(data), k, d)

func kmeans.ParStrategy.Iterate(strategy, space, centroids, data) (r)
  requires space != nil && len(centroids) > 0 && strategy.Degree >= 1
  requires forall i :: 0 <= i < len(data) ==> !isnil(data[i])
  ensures [count C14 C15 C16] len(r) == len(centroids) && off(r) == 0 && fresh(r)
  ensures [kept C14] forall k :: 0 <= k < len(centroids) && CNTN(space, centroids, row(data), off(data), len(data), k) == 0 ==> r[k] == centroids[k]
  ensures [mean C14] forall k, d {CO(r[k], d)} :: 0 <= k < len(centroids) && CNTN(space, centroids, row(data), off(data), len(data), k) > 0 ==> TOT(r[k], d, CNTN(space, centroids, row(data), off(data), len(data), k)) == SUMN(space, centroids, row(data), off(data), len(data), k, d)
  use CNTNpos

func kmeans.(*Impl).Iterate(impl, model) (clust, figures, err)
  requires impl != nil && !isnil(model) && !isnil(impl.strategy) && !isnil(impl.buffer) && DB(impl.buffer) != nil
  requires !isnil(MSPACE(model)) && MCENTN(model) > 0
  requires typeis(impl.strategy, *kmeans.SeqStrategy) ==> unbox(impl.strategy, *kmeans.SeqStrategy) != nil
  requires typeis(impl.strategy, kmeans.ParStrategy) ==> unbox(impl.strategy, kmeans.ParStrategy).Degree >= 1
  requires BUFOK(DB(impl.buffer))
  requires forall i :: 0 <= i < len(DB(impl.buffer).data) ==> !isnil(DB(impl.buffer).data[i])
  modifies DB(impl.buffer).data, chanof(DB(impl.buffer).pipe), fields(as(DB(impl.buffer).strategy, *core.fixedSizeStrategy)), array0(DB(impl.buffer).data)
  ensures [ok C14 C15 C16] isnil(err)
  ensures [count C14 C15 C16] len(clust) == MCENTN(model) && fresh(clust)
  ensures [kept C14] forall k :: 0 <= k < MCENTN(model) && old(CNTN(MSPACE(model), segment(mem(clust)[MCBASE(model)], MCOFF(model), MCENTN(model)), row(DB(impl.buffer).data), off(DB(impl.buffer).data), len(DB(impl.buffer).data), k)) == 0 ==> clust[k] == old(mem(clust)[MCBASE(model)][MCOFF(model) + k])
  ensures [mean C14] forall k, d {CO(clust[k], d)} :: 0 <= k < MCENTN(model) && old(CNTN(MSPACE(model), segment(mem(clust)[MCBASE(model)], MCOFF(model), MCENTN(model)), row(DB(impl.buffer).data), off(DB(impl.buffer).data), len(DB(impl.buffer).data), k)) > 0 ==> TOT(clust[k], d, old(CNTN(MSPACE(model), segment(mem(clust)[MCBASE(model)], MCOFF(model), MCENTN(model)), row(DB(impl.buffer).data), off(DB(impl.buffer).data), len(DB(impl.buffer).data), k))) == old(SUMN(MSPACE(model), segment(mem(clust)[MCBASE(model)], MCOFF(model), MCENTN(model)), row(DB(impl.buffer).data), off(DB(impl.buffer).data), len(DB(impl.buffer).data), k, d))
  ensures [buffer] BUFOK(DB(impl.buffer)) && impl.buffer == old(impl.buffer) && DB(impl.buffer).strategy == old(DB(impl.buffer).strategy) && DB(impl.buffer).pipe == old(DB(impl.buffer).pipe)
  ensures [same] INFINITE(DB(impl.buffer).strategy) ==> forall i :: 0 <= i < old(len(DB(impl.buffer).data)) ==> DB(impl.buffer).data[i] == old(DB(impl.buffer).data[i])
  ensures [storage] base(DB(impl.buffer).data) == old(base(DB(impl.buffer).data)) || fresh(DB(impl.buffer).data)
  ensures [staged C14 C15 C16] qlen(DB(impl.buffer).pipe) == 0
  ensures [stored C14 C15 C16] INFINITE(DB(impl.buffer).strategy) ==> len(DB(impl.buffer).data) == old(len(DB(impl.buffer).data) + qlen(DB(impl.buffer).pipe))
  ensures [newest C14] FIXED(DB(impl.buffer).strategy) && old(qlen(DB(impl.buffer).pipe)) > 0 ==> DB(impl.buffer).data[RING(POS(DB(impl.buffer).strategy), SIZE(DB(impl.buffer).strategy), 0)] == old(q(DB(impl.buffer).pipe)[qlen(DB(impl.buffer).pipe) - 1])

property C14
  verify kmeans.(*SeqStrategy).Iterate, kmeans.ParStrategy.Iterate, kmeans.(*Impl).Iterate, kmeans.NewSeqImpl, kmeans.NewParImpl

func kmeans.NewSeqImpl(conf, initializer, data, args) (r)
  flag inline-in mcmc.(*SeqStrategy).Iterate mcmc.(*ParStrategy).Iterate
  ensures [strategy C14 C15 C16] typeis(r.strategy, *kmeans.SeqStrategy) && unbox(r.strategy, *kmeans.SeqStrategy) != nil
  ensures [buffer C14 C15 C16] !isnil(r.buffer) && DB(r.buffer) != nil && BUFOK(DB(r.buffer))
func kmeans.NewParImpl(conf, initializer, data, args) (r)
  flag inline-in mcmc.(*SeqStrategy).Iterate mcmc.(*ParStrategy).Iterate
  ensures [strategy C14 C15 C16] typeis(r.strategy, kmeans.ParStrategy) && unbox(r.strategy, kmeans.ParStrategy).Degree == conf.NumCPU
  ensures [buffer C14 C15 C16] !isnil(r.buffer) && DB(r.buffer) != nil && BUFOK(DB(r.buffer))
