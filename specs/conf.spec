# ---- configurations (C20) -------------------------------------------------------
extern time.Now() (t)
  sets [C24] g.nowt := t
  sets [C29] g.nowt := t
  sets [C29] g.first := ite(g.nows == 0, t, g.first)
  sets [C29] g.nows := g.nows + 1
  flag noalloc yes
extern time.Time.UTC(t) (r)
  flag noalloc yes
spec UNIXOF(t: int): int
# TM: a point in time, in nanoseconds
spec TM(t: int): int
extern time.Time.After(t, u) (b)
  ensures b == (TM(t) > TM(u))
  flag noalloc yes
extern time.Time.Before(t, u) (b)
  ensures b == (TM(t) < TM(u))
  flag noalloc yes
extern time.Time.Add(t, d) (r)
  ensures TM(r) == TM(t) + d
  flag noalloc yes
extern time.Time.Sub(t, u) (d)
  ensures d == TM(t) - TM(u)
  flag noalloc yes
extern time.Sleep(d) ()
  modifies g.epoch
  sets [C29] g.slept := g.slept + d
  flag noalloc yes
extern time.Time.Unix(t) (n)
  ensures n == UNIXOF(t)
  flag noalloc yes
extern time.Time.Nanosecond(t) (n)
  flag noalloc yes
extern rand.NewSource(seed) (s)
  ensures !isnil(s)
extern rand.New(src) (r)
  ensures r != nil && fresh(r)
# MENTIONS: the message of an error contains a value
spec MENTIONS(e: iface, v: iface): bool
extern fmt.Errorf(format, args) (err)
  ensures !isnil(err)
  ensures len(args) > 0 ==> MENTIONS(err, args[0])

dispatch core.Conf: *core.CtrlConf, *kmeans.Conf, *mcmc.Conf, *streaming.Conf, *template.Conf
def KNOWN(c: iface): bool := typeis(c, *core.CtrlConf) || typeis(c, *kmeans.Conf) || typeis(c, *mcmc.Conf) || typeis(c, *streaming.Conf) || typeis(c, *template.Conf)

# no control parameter is negative
def CTRLOK(ipd: int, dpi: int, fr: real, to: int, it: int): bool := ipd >= 0 && dpi >= 0 && fr >= 0.0 && to >= 0 && it >= 0
def KMOK(k: int): bool := k >= 1
def MCOK(ik: int, mk: int): bool := ik >= 1 && ik <= ite(mk == 0, 16, mk)
def STOK(oa: int): bool := oa == 0 || oa >= 2

func core.(*CtrlConf).Verify(conf) (err)
  requires conf != nil
  ensures [iff C20] isnil(err) <==> CTRLOK(conf.IterPerData, conf.DataPerIter, conf.IterFreq, conf.Timeout, conf.Iter)

func core.(*CtrlConf).SetDefaultValues(conf) ()
  requires conf != nil

func core.(*CtrlConf).Ctrl(conf) (r)
  ensures [self] r == conf

func kmeans.(*Conf).SetDefaultValues(conf) ()
  requires conf != nil
  modifies conf.RGen, conf.NumCPU
  modifies [C24] g.nowt
  ensures [rgen] ite(old(conf.RGen) == nil, fresh(conf.RGen), conf.RGen == old(conf.RGen))
  ensures [numcpu] ite(old(conf.NumCPU) == 0, conf.NumCPU >= 1, conf.NumCPU == old(conf.NumCPU))

func kmeans.(*Conf).Verify(conf) (err)
  requires conf != nil
  modifies conf.RGen, conf.NumCPU
  modifies [C24] g.nowt
  ensures [rgen] ite(old(conf.RGen) == nil, fresh(conf.RGen), conf.RGen == old(conf.RGen))
  ensures [numcpu] ite(old(conf.NumCPU) == 0, conf.NumCPU >= 1, conf.NumCPU == old(conf.NumCPU))
  ensures [iff C20] isnil(err) <==> KMOK(old(conf.K))

func mcmc.(*Conf).SetDefaultValues(conf) ()
  requires conf != nil
  modifies conf.RGen, conf.NumCPU, conf.ProbaK, conf.Norm, conf.MaxK, conf.B
  modifies [C24] g.nowt
  ensures [rgen] ite(old(conf.RGen) == nil, fresh(conf.RGen), conf.RGen == old(conf.RGen))
  ensures [numcpu] ite(old(conf.NumCPU) == 0, conf.NumCPU >= 1, conf.NumCPU == old(conf.NumCPU))
  ensures [probak] ite(old(len(conf.ProbaK)) == 0, len(conf.ProbaK) == 3 && conf.ProbaK[0] == 1.0 && conf.ProbaK[1] == 8.0 && conf.ProbaK[2] == 1.0, conf.ProbaK == old(conf.ProbaK))
  ensures [norm] conf.Norm == ite(old(conf.Norm) == 0.0, 2.0, old(conf.Norm))
  ensures [maxk] conf.MaxK == ite(old(conf.MaxK) == 0, 16, old(conf.MaxK))
  ensures [b] conf.B == ite(old(conf.B) == 0.0, 1.0, old(conf.B))

func mcmc.(*Conf).Verify(conf) (err)
  requires conf != nil
  modifies conf.RGen, conf.NumCPU, conf.ProbaK, conf.Norm, conf.MaxK, conf.B
  modifies [C24] g.nowt
  ensures [rgen] ite(old(conf.RGen) == nil, fresh(conf.RGen), conf.RGen == old(conf.RGen))
  ensures [numcpu] ite(old(conf.NumCPU) == 0, conf.NumCPU >= 1, conf.NumCPU == old(conf.NumCPU))
  ensures [probak] ite(old(len(conf.ProbaK)) == 0, len(conf.ProbaK) == 3 && conf.ProbaK[0] == 1.0 && conf.ProbaK[1] == 8.0 && conf.ProbaK[2] == 1.0, conf.ProbaK == old(conf.ProbaK))
  ensures [norm] conf.Norm == ite(old(conf.Norm) == 0.0, 2.0, old(conf.Norm))
  ensures [maxk] conf.MaxK == ite(old(conf.MaxK) == 0, 16, old(conf.MaxK))
  ensures [b] conf.B == ite(old(conf.B) == 0.0, 1.0, old(conf.B))
  ensures [iff C20] isnil(err) <==> MCOK(old(conf.InitK), old(conf.MaxK))

func streaming.(*Conf).SetDefaultValues(conf) ()
  requires conf != nil
  modifies conf.RGen, conf.BufferSize, conf.Mu, conf.OutRatio, conf.OutAfter, conf.Sigma
  modifies [C24] g.nowt
  ensures [rgen] ite(old(conf.RGen) == nil, fresh(conf.RGen), conf.RGen == old(conf.RGen))
  ensures [buffersize] conf.BufferSize == ite(old(conf.BufferSize) == 0, 100, old(conf.BufferSize))
  ensures [mu] conf.Mu == ite(old(conf.Mu) == 0.0, 0.5, old(conf.Mu))
  ensures [outratio] conf.OutRatio == ite(old(conf.OutRatio) == 0.0, 2.0, old(conf.OutRatio))
  ensures [outafter] conf.OutAfter == ite(old(conf.OutAfter) == 0, 5, old(conf.OutAfter))
  ensures [sigma] conf.Sigma == ite(old(conf.Sigma) == 0.0, 0.1, old(conf.Sigma))

func streaming.(*Conf).Verify(conf) (err)
  requires conf != nil
  modifies conf.RGen, conf.BufferSize, conf.Mu, conf.OutRatio, conf.OutAfter, conf.Sigma
  modifies [C24] g.nowt
  ensures [rgen] ite(old(conf.RGen) == nil, fresh(conf.RGen), conf.RGen == old(conf.RGen))
  ensures [buffersize] conf.BufferSize == ite(old(conf.BufferSize) == 0, 100, old(conf.BufferSize))
  ensures [mu] conf.Mu == ite(old(conf.Mu) == 0.0, 0.5, old(conf.Mu))
  ensures [outratio] conf.OutRatio == ite(old(conf.OutRatio) == 0.0, 2.0, old(conf.OutRatio))
  ensures [outafter] conf.OutAfter == ite(old(conf.OutAfter) == 0, 5, old(conf.OutAfter))
  ensures [sigma] conf.Sigma == ite(old(conf.Sigma) == 0.0, 0.1, old(conf.Sigma))
  ensures [iff C20] isnil(err) <==> STOK(old(conf.OutAfter))



func core.PrepareConf(conf) (err)
  requires KNOWN(conf)
  requires (typeis(conf, *kmeans.Conf) ==> unbox(conf, *kmeans.Conf) != nil) && (typeis(conf, *mcmc.Conf) ==> unbox(conf, *mcmc.Conf) != nil) && (typeis(conf, *streaming.Conf) ==> unbox(conf, *streaming.Conf) != nil) && (typeis(conf, *core.CtrlConf) ==> unbox(conf, *core.CtrlConf) != nil) && (typeis(conf, *template.Conf) ==> unbox(conf, *template.Conf) != nil)
  modifies as(conf, *kmeans.Conf).RGen, as(conf, *kmeans.Conf).NumCPU, as(conf, *mcmc.Conf).RGen, as(conf, *mcmc.Conf).NumCPU, as(conf, *mcmc.Conf).ProbaK, as(conf, *mcmc.Conf).Norm, as(conf, *mcmc.Conf).MaxK, as(conf, *mcmc.Conf).B, as(conf, *streaming.Conf).RGen, as(conf, *streaming.Conf).BufferSize, as(conf, *streaming.Conf).Mu, as(conf, *streaming.Conf).OutRatio, as(conf, *streaming.Conf).OutAfter, as(conf, *streaming.Conf).Sigma
  modifies [C24] g.nowt
  ensures [kmeans C20] typeis(conf, *kmeans.Conf) ==> (isnil(err) <==> old(KMOK(unbox(conf, *kmeans.Conf).K) && CTRLOK(unbox(conf, *kmeans.Conf).CtrlConf.IterPerData, unbox(conf, *kmeans.Conf).CtrlConf.DataPerIter, unbox(conf, *kmeans.Conf).CtrlConf.IterFreq, unbox(conf, *kmeans.Conf).CtrlConf.Timeout, unbox(conf, *kmeans.Conf).CtrlConf.Iter)))
  ensures [mcmc C20] typeis(conf, *mcmc.Conf) ==> (isnil(err) <==> old(MCOK(unbox(conf, *mcmc.Conf).InitK, unbox(conf, *mcmc.Conf).MaxK) && CTRLOK(unbox(conf, *mcmc.Conf).CtrlConf.IterPerData, unbox(conf, *mcmc.Conf).CtrlConf.DataPerIter, unbox(conf, *mcmc.Conf).CtrlConf.IterFreq, unbox(conf, *mcmc.Conf).CtrlConf.Timeout, unbox(conf, *mcmc.Conf).CtrlConf.Iter)))
  ensures [streaming C20] typeis(conf, *streaming.Conf) ==> (isnil(err) <==> old(STOK(unbox(conf, *streaming.Conf).OutAfter) && CTRLOK(unbox(conf, *streaming.Conf).CtrlConf.IterPerData, unbox(conf, *streaming.Conf).CtrlConf.DataPerIter, unbox(conf, *streaming.Conf).CtrlConf.IterFreq, unbox(conf, *streaming.Conf).CtrlConf.Timeout, unbox(conf, *streaming.Conf).CtrlConf.Iter)))
  ensures [ctrl C20] typeis(conf, *core.CtrlConf) ==> (isnil(err) <==> old(CTRLOK(unbox(conf, *core.CtrlConf).IterPerData, unbox(conf, *core.CtrlConf).DataPerIter, unbox(conf, *core.CtrlConf).IterFreq, unbox(conf, *core.CtrlConf).Timeout, unbox(conf, *core.CtrlConf).Iter)))
  ensures [template C20] typeis(conf, *template.Conf) ==> (isnil(err) <==> old(CTRLOK(unbox(conf, *template.Conf).CtrlConf.IterPerData, unbox(conf, *template.Conf).CtrlConf.DataPerIter, unbox(conf, *template.Conf).CtrlConf.IterFreq, unbox(conf, *template.Conf).CtrlConf.Timeout, unbox(conf, *template.Conf).CtrlConf.Iter)))
  ensures [kmdef] typeis(conf, *kmeans.Conf) ==> ite(old(unbox(conf, *kmeans.Conf).RGen) == nil, fresh(unbox(conf, *kmeans.Conf).RGen), unbox(conf, *kmeans.Conf).RGen == old(unbox(conf, *kmeans.Conf).RGen)) && ite(old(unbox(conf, *kmeans.Conf).NumCPU) == 0, unbox(conf, *kmeans.Conf).NumCPU >= 1, unbox(conf, *kmeans.Conf).NumCPU == old(unbox(conf, *kmeans.Conf).NumCPU))
  ensures [mcdef] typeis(conf, *mcmc.Conf) ==> ite(old(unbox(conf, *mcmc.Conf).RGen) == nil, fresh(unbox(conf, *mcmc.Conf).RGen), unbox(conf, *mcmc.Conf).RGen == old(unbox(conf, *mcmc.Conf).RGen)) && ite(old(unbox(conf, *mcmc.Conf).NumCPU) == 0, unbox(conf, *mcmc.Conf).NumCPU >= 1, unbox(conf, *mcmc.Conf).NumCPU == old(unbox(conf, *mcmc.Conf).NumCPU)) && unbox(conf, *mcmc.Conf).Norm == ite(old(unbox(conf, *mcmc.Conf).Norm) == 0.0, 2.0, old(unbox(conf, *mcmc.Conf).Norm)) && unbox(conf, *mcmc.Conf).MaxK == ite(old(unbox(conf, *mcmc.Conf).MaxK) == 0, 16, old(unbox(conf, *mcmc.Conf).MaxK)) && unbox(conf, *mcmc.Conf).B == ite(old(unbox(conf, *mcmc.Conf).B) == 0.0, 1.0, old(unbox(conf, *mcmc.Conf).B))
  ensures [mcprobak] typeis(conf, *mcmc.Conf) ==> ite(old(len(unbox(conf, *mcmc.Conf).ProbaK)) == 0, len(unbox(conf, *mcmc.Conf).ProbaK) == 3 && unbox(conf, *mcmc.Conf).ProbaK[0] == 1.0 && unbox(conf, *mcmc.Conf).ProbaK[1] == 8.0 && unbox(conf, *mcmc.Conf).ProbaK[2] == 1.0, unbox(conf, *mcmc.Conf).ProbaK == old(unbox(conf, *mcmc.Conf).ProbaK))
  ensures [stdef] typeis(conf, *streaming.Conf) ==> ite(old(unbox(conf, *streaming.Conf).RGen) == nil, fresh(unbox(conf, *streaming.Conf).RGen), unbox(conf, *streaming.Conf).RGen == old(unbox(conf, *streaming.Conf).RGen)) && unbox(conf, *streaming.Conf).BufferSize == ite(old(unbox(conf, *streaming.Conf).BufferSize) == 0, 100, old(unbox(conf, *streaming.Conf).BufferSize)) && unbox(conf, *streaming.Conf).Mu == ite(old(unbox(conf, *streaming.Conf).Mu) == 0.0, 0.5, old(unbox(conf, *streaming.Conf).Mu)) && unbox(conf, *streaming.Conf).OutRatio == ite(old(unbox(conf, *streaming.Conf).OutRatio) == 0.0, 2.0, old(unbox(conf, *streaming.Conf).OutRatio)) && unbox(conf, *streaming.Conf).OutAfter == ite(old(unbox(conf, *streaming.Conf).OutAfter) == 0, 5, old(unbox(conf, *streaming.Conf).OutAfter)) && unbox(conf, *streaming.Conf).Sigma == ite(old(unbox(conf, *streaming.Conf).Sigma) == 0.0, 0.1, old(unbox(conf, *streaming.Conf).Sigma))

func core.NewAlgo(conf, impl, space) (algo)
  requires KNOWN(conf)
  requires (typeis(conf, *kmeans.Conf) ==> unbox(conf, *kmeans.Conf) != nil) && (typeis(conf, *mcmc.Conf) ==> unbox(conf, *mcmc.Conf) != nil) && (typeis(conf, *streaming.Conf) ==> unbox(conf, *streaming.Conf) != nil) && (typeis(conf, *core.CtrlConf) ==> unbox(conf, *core.CtrlConf) != nil) && (typeis(conf, *template.Conf) ==> unbox(conf, *template.Conf) != nil)
  modifies as(conf, *kmeans.Conf).RGen, as(conf, *kmeans.Conf).NumCPU, as(conf, *mcmc.Conf).RGen, as(conf, *mcmc.Conf).NumCPU, as(conf, *mcmc.Conf).ProbaK, as(conf, *mcmc.Conf).Norm, as(conf, *mcmc.Conf).MaxK, as(conf, *mcmc.Conf).B, as(conf, *streaming.Conf).RGen, as(conf, *streaming.Conf).BufferSize, as(conf, *streaming.Conf).Mu, as(conf, *streaming.Conf).OutRatio, as(conf, *streaming.Conf).OutAfter, as(conf, *streaming.Conf).Sigma
  modifies [C24] g.nowt
  flag panics !((typeis(conf, *kmeans.Conf) ==> KMOK(unbox(conf, *kmeans.Conf).K) && CTRLOK(unbox(conf, *kmeans.Conf).CtrlConf.IterPerData, unbox(conf, *kmeans.Conf).CtrlConf.DataPerIter, unbox(conf, *kmeans.Conf).CtrlConf.IterFreq, unbox(conf, *kmeans.Conf).CtrlConf.Timeout, unbox(conf, *kmeans.Conf).CtrlConf.Iter)) && (typeis(conf, *mcmc.Conf) ==> MCOK(unbox(conf, *mcmc.Conf).InitK, unbox(conf, *mcmc.Conf).MaxK) && CTRLOK(unbox(conf, *mcmc.Conf).CtrlConf.IterPerData, unbox(conf, *mcmc.Conf).CtrlConf.DataPerIter, unbox(conf, *mcmc.Conf).CtrlConf.IterFreq, unbox(conf, *mcmc.Conf).CtrlConf.Timeout, unbox(conf, *mcmc.Conf).CtrlConf.Iter)) && (typeis(conf, *streaming.Conf) ==> STOK(unbox(conf, *streaming.Conf).OutAfter) && CTRLOK(unbox(conf, *streaming.Conf).CtrlConf.IterPerData, unbox(conf, *streaming.Conf).CtrlConf.DataPerIter, unbox(conf, *streaming.Conf).CtrlConf.IterFreq, unbox(conf, *streaming.Conf).CtrlConf.Timeout, unbox(conf, *streaming.Conf).CtrlConf.Iter)) && (typeis(conf, *core.CtrlConf) ==> CTRLOK(unbox(conf, *core.CtrlConf).IterPerData, unbox(conf, *core.CtrlConf).DataPerIter, unbox(conf, *core.CtrlConf).IterFreq, unbox(conf, *core.CtrlConf).Timeout, unbox(conf, *core.CtrlConf).Iter)) && (typeis(conf, *template.Conf) ==> CTRLOK(unbox(conf, *template.Conf).CtrlConf.IterPerData, unbox(conf, *template.Conf).CtrlConf.DataPerIter, unbox(conf, *template.Conf).CtrlConf.IterFreq, unbox(conf, *template.Conf).CtrlConf.Timeout, unbox(conf, *template.Conf).CtrlConf.Iter)))
  flag panics-in C20
  ensures [valid C20] old((typeis(conf, *kmeans.Conf) ==> KMOK(unbox(conf, *kmeans.Conf).K) && CTRLOK(unbox(conf, *kmeans.Conf).CtrlConf.IterPerData, unbox(conf, *kmeans.Conf).CtrlConf.DataPerIter, unbox(conf, *kmeans.Conf).CtrlConf.IterFreq, unbox(conf, *kmeans.Conf).CtrlConf.Timeout, unbox(conf, *kmeans.Conf).CtrlConf.Iter)) && (typeis(conf, *mcmc.Conf) ==> MCOK(unbox(conf, *mcmc.Conf).InitK, unbox(conf, *mcmc.Conf).MaxK) && CTRLOK(unbox(conf, *mcmc.Conf).CtrlConf.IterPerData, unbox(conf, *mcmc.Conf).CtrlConf.DataPerIter, unbox(conf, *mcmc.Conf).CtrlConf.IterFreq, unbox(conf, *mcmc.Conf).CtrlConf.Timeout, unbox(conf, *mcmc.Conf).CtrlConf.Iter)) && (typeis(conf, *streaming.Conf) ==> STOK(unbox(conf, *streaming.Conf).OutAfter) && CTRLOK(unbox(conf, *streaming.Conf).CtrlConf.IterPerData, unbox(conf, *streaming.Conf).CtrlConf.DataPerIter, unbox(conf, *streaming.Conf).CtrlConf.IterFreq, unbox(conf, *streaming.Conf).CtrlConf.Timeout, unbox(conf, *streaming.Conf).CtrlConf.Iter)) && (typeis(conf, *core.CtrlConf) ==> CTRLOK(unbox(conf, *core.CtrlConf).IterPerData, unbox(conf, *core.CtrlConf).DataPerIter, unbox(conf, *core.CtrlConf).IterFreq, unbox(conf, *core.CtrlConf).Timeout, unbox(conf, *core.CtrlConf).Iter)) && (typeis(conf, *template.Conf) ==> CTRLOK(unbox(conf, *template.Conf).CtrlConf.IterPerData, unbox(conf, *template.Conf).CtrlConf.DataPerIter, unbox(conf, *template.Conf).CtrlConf.IterFreq, unbox(conf, *template.Conf).CtrlConf.Timeout, unbox(conf, *template.Conf).CtrlConf.Iter)))
  ensures [kmdef C20] typeis(conf, *kmeans.Conf) ==> ite(old(unbox(conf, *kmeans.Conf).RGen) == nil, fresh(unbox(conf, *kmeans.Conf).RGen), unbox(conf, *kmeans.Conf).RGen == old(unbox(conf, *kmeans.Conf).RGen)) && ite(old(unbox(conf, *kmeans.Conf).NumCPU) == 0, unbox(conf, *kmeans.Conf).NumCPU >= 1, unbox(conf, *kmeans.Conf).NumCPU == old(unbox(conf, *kmeans.Conf).NumCPU))
  ensures [mcdef C20] typeis(conf, *mcmc.Conf) ==> ite(old(unbox(conf, *mcmc.Conf).RGen) == nil, fresh(unbox(conf, *mcmc.Conf).RGen), unbox(conf, *mcmc.Conf).RGen == old(unbox(conf, *mcmc.Conf).RGen)) && ite(old(unbox(conf, *mcmc.Conf).NumCPU) == 0, unbox(conf, *mcmc.Conf).NumCPU >= 1, unbox(conf, *mcmc.Conf).NumCPU == old(unbox(conf, *mcmc.Conf).NumCPU)) && unbox(conf, *mcmc.Conf).Norm == ite(old(unbox(conf, *mcmc.Conf).Norm) == 0.0, 2.0, old(unbox(conf, *mcmc.Conf).Norm)) && unbox(conf, *mcmc.Conf).MaxK == ite(old(unbox(conf, *mcmc.Conf).MaxK) == 0, 16, old(unbox(conf, *mcmc.Conf).MaxK)) && unbox(conf, *mcmc.Conf).B == ite(old(unbox(conf, *mcmc.Conf).B) == 0.0, 1.0, old(unbox(conf, *mcmc.Conf).B))
  ensures [mcprobak C20] typeis(conf, *mcmc.Conf) ==> ite(old(len(unbox(conf, *mcmc.Conf).ProbaK)) == 0, len(unbox(conf, *mcmc.Conf).ProbaK) == 3 && unbox(conf, *mcmc.Conf).ProbaK[0] == 1.0 && unbox(conf, *mcmc.Conf).ProbaK[1] == 8.0 && unbox(conf, *mcmc.Conf).ProbaK[2] == 1.0, unbox(conf, *mcmc.Conf).ProbaK == old(unbox(conf, *mcmc.Conf).ProbaK))
  ensures [stdef C20] typeis(conf, *streaming.Conf) ==> ite(old(unbox(conf, *streaming.Conf).RGen) == nil, fresh(unbox(conf, *streaming.Conf).RGen), unbox(conf, *streaming.Conf).RGen == old(unbox(conf, *streaming.Conf).RGen)) && unbox(conf, *streaming.Conf).BufferSize == ite(old(unbox(conf, *streaming.Conf).BufferSize) == 0, 100, old(unbox(conf, *streaming.Conf).BufferSize)) && unbox(conf, *streaming.Conf).Mu == ite(old(unbox(conf, *streaming.Conf).Mu) == 0.0, 0.5, old(unbox(conf, *streaming.Conf).Mu)) && unbox(conf, *streaming.Conf).OutRatio == ite(old(unbox(conf, *streaming.Conf).OutRatio) == 0.0, 2.0, old(unbox(conf, *streaming.Conf).OutRatio)) && unbox(conf, *streaming.Conf).OutAfter == ite(old(unbox(conf, *streaming.Conf).OutAfter) == 0, 5, old(unbox(conf, *streaming.Conf).OutAfter)) && unbox(conf, *streaming.Conf).Sigma == ite(old(unbox(conf, *streaming.Conf).Sigma) == 0.0, 0.1, old(unbox(conf, *streaming.Conf).Sigma))
  ensures [conf] fresh(algo) && algo.conf == conf && algo.impl == impl && algo.space == space
  ensures [created] algo.status.Value == core.Created && isnil(algo.status.Error) && algo.iterations == 0 && algo.pushedData == 0 && algo.lastDataTime == 0 && algo.duration == 0 && isnil(algo.centroids) && algo.runtimeFigures != nil && algo.statusChannel != nil && algo.ackChannel != nil
  ensures [figures C24] !dom(algo.runtimeFigures, core.Iterations) && !dom(algo.runtimeFigures, core.PushedData) && !dom(algo.runtimeFigures, core.LastDataTime)

def SETK(a: int, b: int): bool := a != 0 ==> b == a
func kmeans.NewAlgo(conf, space, data, initializer, args) (algo)
  flag panics !(KMOK(conf.K) && CTRLOK(conf.CtrlConf.IterPerData, conf.CtrlConf.DataPerIter, conf.CtrlConf.IterFreq, conf.CtrlConf.Timeout, conf.CtrlConf.Iter))
  ensures [valid] KMOK(conf.K) && CTRLOK(conf.CtrlConf.IterPerData, conf.CtrlConf.DataPerIter, conf.CtrlConf.IterFreq, conf.CtrlConf.Timeout, conf.CtrlConf.Iter)
  ensures [conf] fresh(algo) && typeis(algo.conf, *kmeans.Conf) && algo.space == space
  ensures [kept] unbox(algo.conf, *kmeans.Conf).K == conf.K && unbox(algo.conf, *kmeans.Conf).FrameSize == conf.FrameSize && unbox(algo.conf, *kmeans.Conf).Par == conf.Par && unbox(algo.conf, *kmeans.Conf).CtrlConf.Iter == conf.CtrlConf.Iter && unbox(algo.conf, *kmeans.Conf).CtrlConf.IterFreq == conf.CtrlConf.IterFreq && unbox(algo.conf, *kmeans.Conf).CtrlConf.Timeout == conf.CtrlConf.Timeout && unbox(algo.conf, *kmeans.Conf).CtrlConf.DataPerIter == conf.CtrlConf.DataPerIter && unbox(algo.conf, *kmeans.Conf).CtrlConf.IterPerData == conf.CtrlConf.IterPerData
  ensures [rgen] ite(conf.RGen == nil, fresh(unbox(algo.conf, *kmeans.Conf).RGen), unbox(algo.conf, *kmeans.Conf).RGen == conf.RGen)
  ensures [numcpu] ite(conf.NumCPU == 0, unbox(algo.conf, *kmeans.Conf).NumCPU >= 1, unbox(algo.conf, *kmeans.Conf).NumCPU == conf.NumCPU)

func mcmc.NewAlgo(conf, space, data, initializer, distrib) (algo)
  flag panics !(MCOK(conf.InitK, conf.MaxK) && CTRLOK(conf.CtrlConf.IterPerData, conf.CtrlConf.DataPerIter, conf.CtrlConf.IterFreq, conf.CtrlConf.Timeout, conf.CtrlConf.Iter))
  ensures [valid] MCOK(conf.InitK, conf.MaxK) && CTRLOK(conf.CtrlConf.IterPerData, conf.CtrlConf.DataPerIter, conf.CtrlConf.IterFreq, conf.CtrlConf.Timeout, conf.CtrlConf.Iter)
  ensures [conf] fresh(algo) && typeis(algo.conf, *mcmc.Conf) && algo.space == space

func streaming.NewAlgo(conf, space, data) (algo)
  flag panics !(STOK(conf.OutAfter) && CTRLOK(conf.CtrlConf.IterPerData, conf.CtrlConf.DataPerIter, conf.CtrlConf.IterFreq, conf.CtrlConf.Timeout, conf.CtrlConf.Iter)) || ite(conf.BufferSize == 0, 100, conf.BufferSize) < len(data)
  ensures [valid] STOK(conf.OutAfter) && CTRLOK(conf.CtrlConf.IterPerData, conf.CtrlConf.DataPerIter, conf.CtrlConf.IterFreq, conf.CtrlConf.Timeout, conf.CtrlConf.Iter) && len(data) <= ite(conf.BufferSize == 0, 100, conf.BufferSize)
  ensures [conf] fresh(algo) && typeis(algo.conf, *streaming.Conf) && algo.space == space

property C20
  verify core.(*CtrlConf).Verify, core.(*CtrlConf).SetDefaultValues, core.(*CtrlConf).Ctrl, core.PrepareConf, core.NewAlgo
  verify kmeans.(*Conf).SetDefaultValues, kmeans.(*Conf).Verify, mcmc.(*Conf).SetDefaultValues, mcmc.(*Conf).Verify, streaming.(*Conf).SetDefaultValues, streaming.(*Conf).Verify
  verify kmeans.NewAlgo, mcmc.NewAlgo, streaming.NewAlgo
