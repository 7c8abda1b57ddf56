# ---- MCMC (C15, C16) -----------------------------------------------------------
spec EXPR(x: real): real
extern math.Exp(x) (r)
  ensures r == EXPR(x)
  flag noalloc yes
# the last draw: uniform between the bounds
extern distuv.Uniform.Rand(u) (x)
  modifies g.u
  ensures 0.0 <= g.u && g.u < 1.0 && x == u.Min + g.u * (u.Max - u.Min)
spec MDENS(d: iface, mu: iface, x: iface, t: int): real
spec SPDIM(s: iface, n: int): int
iface core.Space.Dim(s, data) (n)
  flag noalloc yes
# a sample is a function of the draws
spec MSAM(d: iface, mu: iface, time: int, nd: row[real], chi: real): iface
iface mcmc.Distrib.Sample(d, mu, time) (r)
  modifies g.nd, g.chi
  ensures r == MSAM(d, mu, time, g.nd, g.chi)
iface mcmc.Distrib.Pdf(d, x, mu, time) (r)
  ensures r == MDENS(d, x, mu, time)
  flag noalloc yes
functype core.Initializer(f, k, data, space, src) (r, err)
  modifies g.u
  ensures isnil(err) ==> len(r) == k
dispatch mcmc.Strategy: *mcmc.SeqStrategy, *mcmc.ParStrategy

# steps with explicit strategies: iter Lloyd steps from the given centers
func mcmc.(*SeqStrategy).Iterate(strategy, conf, space, centroids, data, iter) (r)
  requires space != nil && len(centroids) > 0 && iter >= 0
  requires forall i :: 0 <= i < len(data) ==> !isnil(data[i])
  use SIMPLE
  ensures [count C15 C16] len(r) == len(centroids)
  ensures [none C15 C16] iter == 0 ==> r == centroids
  inv ($m: *kmeans.Impl) !isnil($m.buffer) && fresh(DB($m.buffer)) && BUFOK(DB($m.buffer)) && INFINITE(DB($m.buffer).strategy) && fresh(DB($m.buffer).pipe) && qlen(DB($m.buffer).pipe) == 0
  inv ($m: *kmeans.Impl) isnil(DB($m.buffer).data) || fresh(DB($m.buffer).data)
  inv ($m: *kmeans.Impl) len(DB($m.buffer).data) == len(data) && (forall i :: 0 <= i < len(data) ==> DB($m.buffer).data[i] == data[i])
  inv ($m: *kmeans.Impl) typeis($m.strategy, kmeans.ParStrategy) && unbox($m.strategy, kmeans.ParStrategy).Degree >= 1
  inv ($r: core.Clust) len($r) == len(centroids)
  inv ($i: phi int, $r: core.Clust) $i == 0 ==> $r == centroids
func mcmc.(*ParStrategy).Iterate(strategy, conf, space, centroids, data, iter) (r)
  requires space != nil && len(centroids) > 0 && iter >= 0
  requires forall i :: 0 <= i < len(data) ==> !isnil(data[i])
  use SIMPLE
  ensures [count C15 C16] len(r) == len(centroids)
  ensures [none C15 C16] iter == 0 ==> r == centroids
  inv ($m: *kmeans.Impl) !isnil($m.buffer) && fresh(DB($m.buffer)) && BUFOK(DB($m.buffer)) && INFINITE(DB($m.buffer).strategy) && fresh(DB($m.buffer).pipe) && qlen(DB($m.buffer).pipe) == 0
  inv ($m: *kmeans.Impl) isnil(DB($m.buffer).data) || fresh(DB($m.buffer).data)
  inv ($m: *kmeans.Impl) len(DB($m.buffer).data) == len(data) && (forall i :: 0 <= i < len(data) ==> DB($m.buffer).data[i] == data[i])
  inv ($m: *kmeans.Impl) typeis($m.strategy, kmeans.ParStrategy) && unbox($m.strategy, kmeans.ParStrategy).Degree >= 1
  inv ($r: core.Clust) len($r) == len(centroids)
  inv ($i: phi int, $r: core.Clust) $i == 0 ==> $r == centroids
func mcmc.(*SeqStrategy).Loss(strategy, conf, space, proposal, data) (r)
  requires space != nil && (len(proposal) > 0 || len(data) == 0)
  ensures [total] r == TLOSS(space, proposal, row(data), off(data), len(data), conf.Norm, len(proposal))
func mcmc.(*ParStrategy).Loss(strategy, conf, space, centroids, data) (r)
  requires strategy != nil && strategy.Degree >= 1 && space != nil && len(centroids) > 0
  ensures [total] r == TLOSS(space, centroids, row(data), off(data), len(data), conf.Norm, len(centroids))

# log density of a list of centers under the alteration of itself
rec DENSN(d: iface, x: seq[iface], mu: seq[iface], t: int, n: int): real on n :=
  ite(n <= 0, 0.0, DENSN(d, x, mu, t, n - 1) + MDENS(d, mu[n - 1], x[n - 1], t))

func mcmc.(*Impl).proba(impl, conf, space, x, mu, time) (p)
  requires impl != nil && !isnil(impl.distrib) && len(mu) >= len(x)
  ensures [sum] p == DENSN(impl.distrib, x, mu, time, len(x))
  inv ($i: phi int, $p: phi real) $p == DENSN(impl.distrib, x, mu, time, $i)

func mcmc.(*Impl).alter(impl, conf, space, clust, time) (r)
  requires impl != nil && !isnil(impl.distrib)
  modifies g.nd, g.chi
  ensures [count] len(r) == len(clust) && fresh(r)

def PROBAOK(c: mcmc.Conf): bool := len(c.ProbaK) == 3 && (forall i :: 0 <= i < 3 ==> c.ProbaK[i] >= 0.0) && c.MaxK >= 1 && c.RGen != nil

func mcmc.(*Impl).nextK(impl, conf, k, data) (r)
  requires PROBAOK(conf)
  requires 1 <= k && k <= conf.MaxK && k <= len(data)
  modifies g.u
  ensures [low] r >= 1
  ensures [high] r <= conf.MaxK
  ensures [data] r <= len(data)
  ensures [step] k - 1 <= r && r <= k + 1

func mcmc.(*Impl).getKCenters(impl, conf, space, current, centroids, data) (k, centers)
  requires impl != nil && space != nil && PROBAOK(conf) && STOREOK(impl.store) && impl.store.rgen != nil
  requires 1 <= current.k && current.k <= conf.MaxK && current.k <= len(data) && len(centroids) == current.k
  requires forall a: iface, b: iface {DIST(space, a, b)} :: DIST(space, a, b) >= 0.0
  modifies g.u
  ensures [bounds] 1 <= k && k <= conf.MaxK && k <= len(data) && current.k - 1 <= k && k <= current.k + 1
  ensures [count] len(centers) == k

def STRATOK(s: iface): bool := (typeis(s, *mcmc.SeqStrategy) ==> unbox(s, *mcmc.SeqStrategy) != nil) && (typeis(s, *mcmc.ParStrategy) ==> unbox(s, *mcmc.ParStrategy) != nil && unbox(s, *mcmc.ParStrategy).Degree >= 1)
def IMPLOK(m: *mcmc.Impl): bool := STOREOK(m.store) && m.store.rgen != nil && !isnil(m.strategy) && STRATOK(m.strategy) && !isnil(m.distrib)
def RHO(conf: mcmc.Conf, dim: int, ck: int, cl: real, cp: real, pk: int, pl: real, pp: real, time: int): real :=
  EXPR(conf.Amp * SQRT(real(dim + 3) / real(time)) * (cl - pl) + LOGR(2.0 * conf.B) * real(dim * (ck - pk)) + (cp - pp))

func mcmc.(*Impl).propose(impl, conf, space, current, centroids, data, time) (p)
  requires impl != nil && space != nil && PROBAOK(conf) && IMPLOK(impl)
  requires 1 <= current.k && current.k <= conf.MaxK && current.k <= len(data) && len(centroids) == current.k
  requires forall i :: 0 <= i < len(data) ==> !isnil(data[i])
  requires forall a: iface, b: iface {DIST(space, a, b)} :: DIST(space, a, b) >= 0.0
  modifies g.u, g.nd, g.chi
  ensures [bounds] 1 <= p.k && p.k <= conf.MaxK && p.k <= len(data) && current.k - 1 <= p.k && p.k <= current.k + 1
  ensures [count] len(p.centers) == p.k
  ensures [loss] p.loss == TLOSS(space, p.centers, row(data), off(data), len(data), conf.Norm, p.k)
  ensures [pdf] p.pdf == DENSN(impl.distrib, p.centers, p.centers, time, p.k)

func mcmc.(*Impl).accept(impl, conf, current, prop, time) (ok)
  requires impl != nil && impl.uniform.Min == 0.0 && impl.uniform.Max == 1.0
  requires time >= 1 && impl.dim >= 0
  modifies g.u, impl.lambda, impl.rho, impl.rGibbs
  ensures [lambda] impl.lambda == conf.Amp * SQRT(real(impl.dim + 3) / real(time))
  ensures [gibbs] impl.rGibbs == impl.lambda * (current.loss - prop.loss)
  ensures [rho] impl.rho == RHO(conf, impl.dim, current.k, current.loss, current.pdf, prop.k, prop.loss, prop.pdf, time)
  ensures [rule] ok <==> g.u < impl.rho

func mcmc.(*Impl).doIter(impl, conf, space, current, centroids, data, time) (cur, clust)
  requires impl != nil && space != nil && PROBAOK(conf) && IMPLOK(impl)
  requires impl.uniform.Min == 0.0 && impl.uniform.Max == 1.0
  requires 1 <= current.k && current.k <= conf.MaxK && current.k <= len(data) && len(centroids) == current.k
  requires time >= 1 && impl.dim >= 0
  requires forall i :: 0 <= i < len(data) ==> !isnil(data[i])
  requires forall a: iface, b: iface {DIST(space, a, b)} :: DIST(space, a, b) >= 0.0
  modifies g.u, g.nd, g.chi, impl.lambda, impl.rho, impl.rGibbs, impl.acc, mapof(impl.store.centers)
  ensures [bounds] 1 <= cur.k && cur.k <= conf.MaxK && cur.k <= len(data) && current.k - 1 <= cur.k && cur.k <= current.k + 1
  ensures [count] len(clust) == cur.k
  ensures [wf] STOREOK(impl.store)
  ensures [lambda] impl.lambda == conf.Amp * SQRT(real(impl.dim + 3) / real(time))
  ensures [taken] g.u < impl.rho ==> impl.acc == old(impl.acc) + 1 && clust == cur.centers && dom(impl.store.centers, cur.k) && impl.store.centers[cur.k] == clust
  ensures [takenloss] g.u < impl.rho ==> cur.loss == TLOSS(space, clust, row(data), off(data), len(data), conf.Norm, len(clust)) && cur.pdf == DENSN(impl.distrib, clust, clust, time, len(clust))
  ensures [takengibbs] g.u < impl.rho ==> impl.rGibbs == impl.lambda * (current.loss - cur.loss)
  ensures [takenrho] g.u < impl.rho ==> impl.rho == RHO(conf, impl.dim, current.k, current.loss, current.pdf, cur.k, cur.loss, cur.pdf, time)
  ensures [others] forall n {dom(impl.store.centers, n)} :: n != cur.k ==> (dom(impl.store.centers, n) <==> old(dom(impl.store.centers, n))) && impl.store.centers[n] == old(impl.store.centers[n])
  ensures [rejected] !(g.u < impl.rho) ==> impl.acc == old(impl.acc) && clust == centroids && cur.k == current.k && cur.centers == current.centers && cur.loss == current.loss && cur.pdf == current.pdf
  ensures [rejectedstore] !(g.u < impl.rho) ==> forall n {dom(impl.store.centers, n)} :: (dom(impl.store.centers, n) <==> old(dom(impl.store.centers, n))) && impl.store.centers[n] == old(impl.store.centers[n])
  ensures [rejectedrho] ($p: mcmc.proposal) !(g.u < impl.rho) ==> impl.rho == RHO(conf, impl.dim, current.k, current.loss, current.pdf, $p.k, $p.loss, $p.pdf, time) && 1 <= $p.k && $p.k <= conf.MaxK && len($p.centers) == $p.k && $p.loss == TLOSS(space, $p.centers, row(data), off(data), len(data), conf.Norm, $p.k) && $p.pdf == DENSN(impl.distrib, $p.centers, $p.centers, time, $p.k)

func mcmc.(*Impl).runtimeFigures(impl) (f)
  requires impl != nil
  ensures [acceptations] dom(f, "acceptations") && f["acceptations"] == real(impl.acc)
  ensures [lambda] dom(f, "lambda") && f["lambda"] == impl.lambda
  ensures [rho] dom(f, "rho") && f["rho"] == impl.rho
  ensures [gibbs] dom(f, "rGibbs") && f["rGibbs"] == impl.rGibbs
  ensures [time] dom(f, "time") && f["time"] == real(impl.time)

func mcmc.NewSeqImpl(conf, initializer, data, distrib) (r)
  requires conf.RGen != nil
  ensures [uniform] r.uniform.Min == 0.0 && r.uniform.Max == 1.0
  ensures [store] STOREOK(r.store) && r.store.rgen == conf.RGen && (forall n {dom(r.store.centers, n)} :: !dom(r.store.centers, n))
  ensures [strategy] typeis(r.strategy, *mcmc.SeqStrategy) && STRATOK(r.strategy)
  ensures [zero] r.acc == 0
func mcmc.NewParImpl(conf, initializer, data, distrib) (r)
  requires conf.RGen != nil
  ensures [uniform] r.uniform.Min == 0.0 && r.uniform.Max == 1.0
  ensures [store] STOREOK(r.store) && r.store.rgen == conf.RGen && (forall n {dom(r.store.centers, n)} :: !dom(r.store.centers, n))
  ensures [strategy] typeis(r.strategy, *mcmc.ParStrategy) && unbox(r.strategy, *mcmc.ParStrategy) != nil && unbox(r.strategy, *mcmc.ParStrategy).Degree == conf.NumCPU
  ensures [zero] r.acc == 0

# an iteration with a model whose centroids are the current ones
func mcmc.(*Impl).Iterate(impl, model) (clust, figures, err)
  requires impl != nil && !isnil(model) && !isnil(MSPACE(model)) && IMPLOK(impl)
  requires typeis(MCONF(model), *mcmc.Conf) && unbox(MCONF(model), *mcmc.Conf) != nil && PROBAOK(*unbox(MCONF(model), *mcmc.Conf))
  requires impl.uniform.Min == 0.0 && impl.uniform.Max == 1.0 && impl.dim >= 0
  requires !isnil(impl.buffer) && DB(impl.buffer) != nil && BUFOK(DB(impl.buffer))
  requires 1 <= impl.current.k && impl.current.k <= unbox(MCONF(model), *mcmc.Conf).MaxK && impl.current.k <= len(DB(impl.buffer).data) && MCENTN(model) == impl.current.k
  requires forall i :: 0 <= i < len(DB(impl.buffer).data) ==> !isnil(DB(impl.buffer).data[i])
  requires forall a: iface, b: iface {DIST(MSPACE(model), a, b)} :: DIST(MSPACE(model), a, b) >= 0.0
  modifies g.u, g.nd, g.chi, impl.lambda, impl.rho, impl.rGibbs, impl.acc, impl.time, impl.current, mapof(impl.store.centers)
  modifies DB(impl.buffer).data, chanof(DB(impl.buffer).pipe), fields(as(DB(impl.buffer).strategy, *core.fixedSizeStrategy)), array0(DB(impl.buffer).data)
  ensures [ok] isnil(err)
  ensures [bounds] 1 <= impl.current.k && impl.current.k <= unbox(MCONF(model), *mcmc.Conf).MaxK && impl.current.k <= len(DB(impl.buffer).data)
  ensures [step] old(impl.current.k) - 1 <= impl.current.k && impl.current.k <= old(impl.current.k) + 1
  ensures [count] len(clust) == impl.current.k
  ensures [wf] IMPLOK(impl) && BUFOK(DB(impl.buffer))
  ensures [time] impl.time == old(len(DB(impl.buffer).data))
  ensures [acc] impl.acc == old(impl.acc) + ite(g.u < impl.rho, 1, 0)
  ensures [rejected] !(g.u < impl.rho) ==> base(clust) == MCBASE(model) && off(clust) == MCOFF(model)
  ensures [figures] figures["acceptations"] == real(impl.acc) && figures["lambda"] == impl.lambda && figures["rho"] == impl.rho && figures["rGibbs"] == impl.rGibbs && figures["time"] == real(impl.time)
func mcmc.(*Impl).Init(impl, model) (centroids, err)
  requires impl != nil && !isnil(model) && !isnil(MSPACE(model)) && IMPLOK(impl)
  requires typeis(MCONF(model), *mcmc.Conf) && unbox(MCONF(model), *mcmc.Conf) != nil && unbox(MCONF(model), *mcmc.Conf).InitK >= 1
  requires !isnil(impl.buffer) && DB(impl.buffer) != nil && BUFOK(DB(impl.buffer)) && !isnil(impl.initializer)
  modifies g.u, impl.dim, impl.time, impl.current
  modifies DB(impl.buffer).data, chanof(DB(impl.buffer).pipe), fields(as(DB(impl.buffer).strategy, *core.fixedSizeStrategy)), array0(DB(impl.buffer).data)
  ensures [k] isnil(err) ==> impl.current.k == unbox(MCONF(model), *mcmc.Conf).InitK
  ensures [count] isnil(err) ==> len(centroids) == impl.current.k
  ensures [centers] isnil(err) ==> impl.current.centers == centroids
  ensures [loss] isnil(err) ==> impl.current.loss == TLOSS(MSPACE(model), centroids, row(DB(impl.buffer).data), off(DB(impl.buffer).data), len(DB(impl.buffer).data), unbox(MCONF(model), *mcmc.Conf).Norm, len(centroids))
  ensures [pdf] isnil(err) ==> impl.current.pdf == DENSN(impl.distrib, centroids, centroids, impl.time, len(centroids))
  ensures [time] isnil(err) ==> impl.time == len(DB(impl.buffer).data)
  ensures [wf] IMPLOK(impl) && BUFOK(DB(impl.buffer))

property C15
  verify mcmc.(*Impl).nextK, mcmc.(*Impl).getKCenters, mcmc.(*Impl).alter, mcmc.(*Impl).propose, mcmc.(*Impl).doIter, mcmc.(*Impl).Iterate, mcmc.(*Impl).Init, mcmc.(*SeqStrategy).Iterate, mcmc.(*ParStrategy).Iterate
property C16
  verify mcmc.(*Impl).accept, mcmc.(*Impl).doIter, mcmc.(*Impl).propose, mcmc.(*Impl).proba, mcmc.(*Impl).runtimeFigures, mcmc.(*Impl).Iterate, mcmc.(*Impl).Init, mcmc.(*SeqStrategy).Loss, mcmc.(*ParStrategy).Loss, mcmc.NewSeqImpl, mcmc.NewParImpl
