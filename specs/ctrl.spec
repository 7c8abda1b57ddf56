# ---- controller (C22 - C26) ------------------------------------------------------
# Threads are verified one at a time: a mutex guards fields; acquiring it forgets what they
# held and assumes the invariant, releasing it after a write lock checks the invariant and the
# step from the values at acquisition (acq) to the values now. The ghosts below are private to
# the thread that runs the function under contract.
ghost runner: int
ghost acc: int
ghost itn: int
ghost pubn: int
ghost pcb: int, pco: int, pcl: int
ghost rs: int
ghost uns: int, usv: int, use: iface
ghost chg: int
ghost idl: int
ghost sent: int, sentv: int, sentE: iface
ghost runs: int
ghost ackok: bool
ghost ierr: iface
ghost fail: int
ghost frec: int, fv: int, fe: iface
ghost panicked: iface
ghost done: bool
ghost ev: int, evd: int
ghost nowt: int
ghost first: int
ghost nows: int
ghost rcv: int, rcvv: int, rcve: iface
ghost tn: int, tnv: int, tne: iface

# CTRL: the control parameters of a configuration, as a boxed pointer
spec CTRL(c: iface): iface

iface core.Conf.Ctrl(c) (r)
  props C22, C23, C24, C25, C26, C29
  ensures CTRL(c) == boxed(r) && r == unbox(CTRL(c), *core.CtrlConf) && r != nil
  flag noalloc yes

def FIG(d: bool, v: real, n: int): bool := ite(d, v, 0.0) == real(n)
def BUSY(v: int): bool := v == core.Running || v == core.Idle
def OVER(v: int): bool := v == core.Created || v == core.Finished
# an initialization of a finished algorithm resets the counters once
guard core.Algo.modelMutex
  props C22, C23, C24, C25, C26, C29
  fields centroids, runtimeFigures, newData, pushedData, iterations, duration, lastDataTime
  acquires g.epoch
  reads runtimeFigures
  reads centroids, newData, pushedData, iterations, duration, lastDataTime unless g.runner == 1
  holds [map] self.runtimeFigures != nil
  holds [iterations C24] FIG(dom(self.runtimeFigures, core.Iterations), self.runtimeFigures[core.Iterations], self.iterations)
  holds [pushed C24] FIG(dom(self.runtimeFigures, core.PushedData), self.runtimeFigures[core.PushedData], self.pushedData)
  holds [lasttime C24] FIG(dom(self.runtimeFigures, core.LastDataTime), self.runtimeFigures[core.LastDataTime], self.lastDataTime)
  step [pushed C24] self.pushedData == ite(held(self.statusMutex) == 2 && acq(self.status.Value) == core.Finished && g.rs == 0 && g.runner == 0, 0, acq(self.pushedData) + g.acc)
  step [lasttime C24] self.lastDataTime == ite(held(self.statusMutex) == 2 && acq(self.status.Value) == core.Finished && g.rs == 0 && g.runner == 0, 0, ite(g.acc == 1, UNIXOF(g.nowt), acq(self.lastDataTime)))
  step [iterations C24] self.iterations == ite(held(self.statusMutex) == 2 && acq(self.status.Value) == core.Finished && g.rs == 0 && g.runner == 0, 0, acq(self.iterations) + g.itn)
  step [published C25 C26] ite(g.pubn == 1, base(self.centroids) == g.pcb && off(self.centroids) == g.pco && len(self.centroids) == g.pcl, base(self.centroids) == base(acq(self.centroids)) && off(self.centroids) == off(acq(self.centroids)) && len(self.centroids) == len(acq(self.centroids)))
  release g.rs := ite(held(self.statusMutex) == 2 && acq(self.status.Value) == core.Finished && g.runner == 0, 1, g.rs)
  release g.acc := 0
  release g.itn := 0
  release g.pubn := 0

guard core.Algo.statusMutex
  props C22, C23, C24, C25, C26, C29
  fields status
  after core.Algo.modelMutex
  acquires g.epoch
  reads unless g.runner == 1
  holds [range] 0 <= self.status.Value && self.status.Value <= 5 && self.status.Value != core.Initializing
  step [owner C23] g.runner == 0 && BUSY(acq(self.status.Value)) ==> self.status.Value == acq(self.status.Value) && self.status.Error == acq(self.status.Error)
  change [owed C23] old(g.uns) == 0
  change [machine C23] g.runner == 0 ==> (OVER(old(self.status.Value)) && self.status.Value == core.Initializing) || (old(self.status.Value) == core.Initializing && (self.status.Value == core.Ready || self.status.Value == core.Finished)) || (old(self.status.Value) == core.Ready && self.status.Value == core.Finished)
  change [run C23] g.runner == 1 ==> ite(self.status.Value == core.Ready, g.chg > 0 && g.usv == core.Running, ite(BUSY(self.status.Value), g.chg == 0 || BUSY(g.usv), self.status.Value == core.Finished))
  change [received C23] g.runner == 1 && g.rcv == 1 ==> self.status.Value == g.rcvv && self.status.Error == g.rcve
  change [error C23 C26] self.status.Value != core.Finished ==> isnil(self.status.Error)
  change [ready C25] g.runner == 1 && self.status.Value == core.Ready ==> g.done && g.fail == 0
  change [kept C26] g.runner == 1 && (g.fail == 1 || !isnil(g.panicked)) && g.frec == 1 ==> old(self.status.Value) != core.Finished
  changed g.uns := 1
  changed g.rcv := ite(g.runner == 1, 0, g.rcv)
  changed g.usv := self.status.Value
  changed g.use := self.status.Error
  changed g.chg := g.chg + 1
  changed g.idl := ite(self.status.Value == core.Idle, g.idl + 1, 0)
  changed g.fv := ite((g.fail == 1 || !isnil(g.panicked)) && g.frec == 0, self.status.Value, g.fv)
  changed g.fe := ite((g.fail == 1 || !isnil(g.panicked)) && g.frec == 0, self.status.Error, g.fe)
  changed g.frec := ite(g.fail == 1 || !isnil(g.panicked), 1, g.frec)

# ---- channels of the controller ----
chan core.Algo.statusChannel.send(c, v) ()
  props C22, C23, C24, C25, C26, C29
  requires [nolocks C22] nolocks()
  requires [command C23 C25 C26] (BUSY(v.Value) && isnil(v.Error)) || v.Value == core.Finished
  modifies g.epoch
  sets g.sent := g.sent + 1
  sets g.sentv := v.Value
  sets g.sentE := v.Error
chan core.Algo.statusChannel.recv(c) (v, ok)
  props C22, C23, C24, C25, C26, C29
  requires [nolocks C22] nolocks()
  requires [taken C23] g.rcv == 0
  modifies g.epoch
  ensures ok && ((BUSY(v.Value) && isnil(v.Error)) || v.Value == core.Finished)
  sets g.evd := 0
  sets g.rcv := 1
  sets g.rcvv := v.Value
  sets g.rcve := v.Error
chan core.Algo.statusChannel.tryrecv(c) (v, ok)
  props C22, C23, C24, C25, C26, C29
  modifies g.epoch
  ensures ok && ((BUSY(v.Value) && isnil(v.Error)) || v.Value == core.Finished)
  sets g.evd := 0
  sets g.rcv := 1
  sets g.rcvv := v.Value
  sets g.rcve := v.Error
chan core.Algo.ackChannel.send(c, v) ()
  props C22, C23, C24, C25, C26, C29
  requires [nolocks C22] nolocks()
  modifies g.epoch
chan core.Algo.ackChannel.recv(c) (v, ok)
  props C22, C23, C24, C25, C26, C29
  requires [nolocks C22] nolocks()
  modifies g.epoch
  sets g.ackok := ok
chan core.Algo.ackChannel.tryrecv(c) (v, ok)
  props C22, C23, C24, C25, C26, C29
  modifies g.epoch
chan core.Algo.ackChannel.close(c) ()
  props C22, C23, C24, C25, C26, C29
chan core.Algo.notifChannel.send(c, v) ()
  props C22, C23, C24, C25, C26, C29
  requires [owed C23] g.uns == 1 && v.Value == g.usv && v.Error == g.use
  modifies g.epoch
  sets g.uns := 0
chan core.Algo.notifChannel.recv(c) (v, ok)
  props C22, C23, C24, C25, C26, C29
  requires [nolocks C22] nolocks()
  modifies g.epoch
  sets g.tn := ite(ok, 1, 0)
  sets g.tnv := v.Value
  sets g.tne := v.Error

functype core.CtrlConf.StatusNotifier(f, a, s) ()
  requires [nolocks C22] nolocks()
  requires [once C23] g.tn == 1 && s.Value == g.tnv && s.Error == g.tne
  modifies g.epoch
  sets g.tn := 0

# ---- the implementation, seen by the controller ----
iface core.Impl.Init(i, m) (c, err)
  props C22, C23, C24, C25, C26, C29
  modifies g.epoch
  flag maypanic yes
  sets g.ierr := err
  sets g.pubn := ite(isnil(err), 1, 0)
  sets g.pcb := base(c)
  sets g.pco := off(c)
  sets g.pcl := len(c)
iface core.Impl.Iterate(i, m) (c, f, err)
  props C22, C23, C24, C25, C26, C29
  requires [nolocks C22] nolocks()
  modifies g.epoch
  flag maypanic yes
  sets g.ierr := err
  sets g.fail := ite(isnil(err), 0, 1)
  sets g.pubn := ite(isnil(err) && !isnil(c), 1, 0)
  sets g.itn := ite(isnil(err) && !isnil(c), 1, 0)
  sets g.pcb := base(c)
  sets g.pco := off(c)
  sets g.pcl := len(c)
  sets g.done := false
  sets g.evd := 0
iface core.Impl.Push(i, e, m) (err)
  props C22, C23, C24, C25, C26, C29
  requires [nolocks C22] nolocks()
  modifies g.epoch
  sets g.acc := ite(isnil(err), 1, 0)
iface core.Impl.Copy(i, m) (r, err)
  props C22, C23, C24, C25, C26, C29
  requires [nolocks C22] nolocks()
  modifies g.epoch


# ---- accessors ----
func core.(*Algo).Centroids(algo) (c)
  requires algo != nil
  modifies guarded(algo.modelMutex), g.epoch, g.rs, g.acc, g.itn, g.pubn
  flag locks yes
  flag inline yes
func core.(*Algo).Space(algo) (c)
  requires algo != nil
  modifies guarded(algo.modelMutex), g.epoch, g.rs, g.acc, g.itn, g.pubn
  flag locks yes
  flag inline yes
func core.(*Algo).Conf(algo) (c)
  requires algo != nil
  modifies guarded(algo.modelMutex), g.epoch, g.rs, g.acc, g.itn, g.pubn
  flag locks yes
  flag inline yes
func core.(*Algo).Impl(algo) (c)
  requires algo != nil
  modifies guarded(algo.modelMutex), g.epoch, g.rs, g.acc, g.itn, g.pubn
  flag locks yes
  flag inline yes
func core.(*Algo).RuntimeFigures(algo) (figures)
  requires algo != nil
  modifies guarded(algo.modelMutex), g.epoch, g.rs, g.acc, g.itn, g.pubn
  flag locks yes
  flag inline yes
func core.(*Algo).Status(algo) (s)
  requires algo != nil
  modifies guarded(algo.statusMutex), g.epoch
  ensures [status C23] s.Value == acq(algo.status.Value) && s.Error == acq(algo.status.Error)
  flag locks yes
  flag inline yes

# ---- commands ----
def SETTLED(): bool := g.acc == 0 && g.itn == 0 && g.pubn == 0 && g.uns == 0
func core.(*Algo).init(algo) (err)
  props C22, C23, C24, C25, C26, C29
  requires algo != nil && !isnil(algo.impl) && !isnil(algo.conf)
  requires [thread] g.runner == 0 && SETTLED() && g.rs == 0 && isnil(g.panicked)
  modifies guarded(algo.modelMutex), guarded(algo.statusMutex), algo.notifChannel, g.epoch, g.rs, g.acc, g.itn, g.pubn, g.pcb, g.pco, g.pcl, g.uns, g.usv, g.use, g.chg, g.idl, g.ierr, g.fv, g.fe, g.frec, g.panicked
  holding algo.statusMutex
  flag locks yes
  ensures [refused C23] !old(OVER(algo.status.Value)) ==> err == core.ErrAlreadyCreated && algo.status.Value == old(algo.status.Value) && algo.status.Error == old(algo.status.Error) && g.chg == old(g.chg)
  ensures [ready C23 C25] old(OVER(algo.status.Value)) && isnil(err) ==> algo.status.Value == core.Ready && isnil(algo.status.Error) && g.chg == old(g.chg) + 2
  ensures [failed C23 C26] old(OVER(algo.status.Value)) && !isnil(err) ==> algo.status.Value == core.Finished && algo.status.Error == err && g.usv == core.Finished && g.use == err && g.chg == old(g.chg) + 2
  ensures [result C23 C26] old(OVER(algo.status.Value)) && isnil(g.panicked) ==> err == g.ierr
  ensures [panic C26] !isnil(g.panicked) ==> !isnil(err) && MENTIONS(err, g.panicked)
  ensures [reset C24] old(algo.status.Value) == core.Finished ==> g.rs == 1
  ensures [settled] SETTLED()

func core.(*Algo).Init(algo) (err)
  props C22, C23, C24, C25, C26, C29
  requires algo != nil && !isnil(algo.impl) && !isnil(algo.conf)
  requires [thread] g.runner == 0 && SETTLED() && g.rs == 0 && isnil(g.panicked)
  modifies guarded(algo.modelMutex), guarded(algo.statusMutex), algo.notifChannel, g.epoch, g.rs, g.acc, g.itn, g.pubn, g.pcb, g.pco, g.pcl, g.uns, g.usv, g.use, g.chg, g.idl, g.ierr, g.fv, g.fe, g.frec, g.panicked
  flag locks yes
  ensures [refused C23] !acq(OVER(algo.status.Value)) ==> err == core.ErrAlreadyCreated && algo.status.Value == acq(algo.status.Value) && algo.status.Error == acq(algo.status.Error) && g.chg == old(g.chg)
  ensures [ready C23] acq(OVER(algo.status.Value)) && isnil(err) ==> algo.status.Value == core.Ready && isnil(algo.status.Error) && g.chg == old(g.chg) + 2
  ensures [failed C23 C26] acq(OVER(algo.status.Value)) && !isnil(err) ==> algo.status.Value == core.Finished && algo.status.Error == err && g.chg == old(g.chg) + 2
  ensures [result C23 C26] acq(OVER(algo.status.Value)) && isnil(g.panicked) ==> err == g.ierr
  ensures [panic C26] !isnil(g.panicked) ==> !isnil(err) && MENTIONS(err, g.panicked)
  ensures [reset C24] acq(algo.status.Value) == core.Finished ==> g.rs == 1
  ensures [settled] SETTLED()


func core.(*Algo).Play(algo) (err)
  props C22, C23, C24, C25, C26, C29
  requires algo != nil && !isnil(algo.impl) && !isnil(algo.conf)
  requires [thread] g.runner == 0 && SETTLED() && g.rs == 0 && isnil(g.panicked)
  modifies guarded(algo.modelMutex), guarded(algo.statusMutex), algo.notifChannel, algo.timeout, g.epoch, g.rs, g.acc, g.itn, g.pubn, g.pcb, g.pco, g.pcl, g.uns, g.usv, g.use, g.chg, g.idl, g.ierr, g.fv, g.fe, g.frec, g.panicked, g.sent, g.sentv, g.sentE, g.runs, g.ackok
  flag locks yes
  call core.(*Algo).run(a) [ready C23 C25] a == algo && algo.status.Value == core.Ready && held(algo.statusMutex) == 2
  ensures [running C23] acq(algo.status.Value) == core.Running ==> err == core.ErrRunning && g.sent == old(g.sent) && g.runs == old(g.runs) && g.chg == old(g.chg)
  ensures [idle C23] acq(algo.status.Value) == core.Idle ==> isnil(err) && g.sent == old(g.sent) + 1 && g.sentv == core.Running && g.runs == old(g.runs) && g.chg == old(g.chg)
  ensures [start C23] acq(algo.status.Value) == core.Ready || acq(OVER(algo.status.Value)) && isnil(err) ==> isnil(err) && g.sent == old(g.sent) + 1 && g.sentv == core.Running && g.runs == old(g.runs) + 1
  ensures [ready C23] acq(algo.status.Value) == core.Ready ==> g.chg == old(g.chg)
  ensures [initialized C23] acq(OVER(algo.status.Value)) ==> g.chg == old(g.chg) + 2
  ensures [failed C23 C26] acq(OVER(algo.status.Value)) && !isnil(err) ==> g.usv == core.Finished && g.use == err && g.sent == old(g.sent) && g.runs == old(g.runs)
  ensures [result C23 C26] acq(OVER(algo.status.Value)) && isnil(g.panicked) ==> err == g.ierr
  ensures [reset C24] acq(algo.status.Value) == core.Finished ==> g.rs == 1
  ensures [settled] SETTLED()

func core.(*Algo).Pause(algo) (err)
  props C22, C23, C24, C25, C26, C29
  requires algo != nil
  requires [thread] g.runner == 0 && SETTLED()
  modifies guarded(algo.statusMutex), g.epoch, g.sent, g.sentv, g.sentE, g.ackok
  flag locks yes
  ensures [notrunning C23] acq(algo.status.Value) != core.Running ==> err == core.ErrNotRunning && g.sent == old(g.sent)
  ensures [running C23] acq(algo.status.Value) == core.Running ==> g.sent == old(g.sent) + 1 && g.sentv == core.Idle && err == ite(g.ackok, nil, core.ErrNotRunning)
  ensures [settled] SETTLED()

func core.(*Algo).interrupt(algo, interruption) (err)
  props C22, C23, C24, C25, C26, C29
  requires algo != nil
  requires [thread] g.runner == 0 && SETTLED()
  modifies guarded(algo.statusMutex), g.epoch, g.uns, g.usv, g.use, g.chg, g.idl, g.fv, g.fe, g.frec, g.sent, g.sentv, g.sentE, g.ackok
  flag locks yes
  ensures [ready C23] acq(algo.status.Value) == core.Ready ==> isnil(err) && g.chg == old(g.chg) + 1 && g.usv == core.Finished && g.use == interruption && g.sent == old(g.sent)
  ensures [running C23] acq(BUSY(algo.status.Value)) ==> g.sent == old(g.sent) + 1 && g.sentv == core.Finished && g.sentE == interruption && g.chg == old(g.chg)
  ensures [notalive C23] acq(OVER(algo.status.Value)) ==> err == core.ErrNotAlive && g.sent == old(g.sent) && g.chg == old(g.chg)
  ensures [settled] SETTLED()

func core.(*Algo).Stop(algo) (err)
  props C22, C23, C24, C25, C26, C29
  requires algo != nil
  requires [thread] g.runner == 0 && SETTLED()
  modifies guarded(algo.statusMutex), g.epoch, g.uns, g.usv, g.use, g.chg, g.idl, g.fv, g.fe, g.frec, g.sent, g.sentv, g.sentE, g.ackok
  flag locks yes
  ensures [ready C23] acq(algo.status.Value) == core.Ready ==> isnil(err) && g.chg == old(g.chg) + 1 && g.usv == core.Finished && isnil(g.use) && g.sent == old(g.sent)
  ensures [running C23] acq(BUSY(algo.status.Value)) ==> g.sent == old(g.sent) + 1 && g.sentv == core.Finished && isnil(g.sentE) && g.chg == old(g.chg)
  ensures [notalive C23] acq(OVER(algo.status.Value)) ==> err == core.ErrNotAlive && g.sent == old(g.sent) && g.chg == old(g.chg)
  ensures [settled] SETTLED()

func core.(*Algo).Push(algo, elemt) (err)
  props C22, C23, C24, C25, C26, C29
  requires algo != nil && !isnil(algo.impl) && !isnil(algo.conf)
  requires [thread] g.runner == 0 && SETTLED() && g.rs == 0 && isnil(g.panicked)
  modifies guarded(algo.modelMutex), guarded(algo.statusMutex), algo.notifChannel, algo.timeout, g.epoch, g.rs, g.acc, g.itn, g.pubn, g.pcb, g.pco, g.pcl, g.uns, g.usv, g.use, g.chg, g.idl, g.ierr, g.fv, g.fe, g.frec, g.panicked, g.sent, g.sentv, g.sentE, g.runs, g.ackok, g.nowt
  flag locks yes
  ensures [settled] SETTLED()

func core.(*Algo).Batch(algo) (err)
  props C22, C29
  requires algo != nil && !isnil(algo.impl) && !isnil(algo.conf)
  requires [thread] g.runner == 0 && SETTLED() && g.rs == 0 && isnil(g.panicked)
  modifies guarded(algo.modelMutex), guarded(algo.statusMutex), algo.notifChannel, algo.timeout, g.epoch, g.rs, g.acc, g.itn, g.pubn, g.pcb, g.pco, g.pcl, g.uns, g.usv, g.use, g.chg, g.idl, g.ierr, g.fv, g.fe, g.frec, g.panicked, g.sent, g.sentv, g.sentE, g.runs, g.ackok, g.nowt, g.first, g.nows, g.slept, g.done
  flag locks yes
  ensures [settled] SETTLED()

func core.(*Algo).Copy(algo, conf, space) (oc, err)
  props C22, C29
  requires algo != nil && !isnil(algo.impl) && KNOWN(conf)
  requires (typeis(conf, *kmeans.Conf) ==> unbox(conf, *kmeans.Conf) != nil) && (typeis(conf, *mcmc.Conf) ==> unbox(conf, *mcmc.Conf) != nil) && (typeis(conf, *streaming.Conf) ==> unbox(conf, *streaming.Conf) != nil) && (typeis(conf, *core.CtrlConf) ==> unbox(conf, *core.CtrlConf) != nil) && (typeis(conf, *template.Conf) ==> unbox(conf, *template.Conf) != nil)
  flag noframe yes
  flag locks yes
  flag panics true

func core.(*Algo).notificationLoop(algo) ()
  props C22, C23, C24, C25, C26, C29
  requires algo != nil && !isnil(algo.conf)
  requires [thread] g.runner == 0 && SETTLED() && g.tn == 0
  modifies guarded(algo.modelMutex), g.epoch, g.rs, g.acc, g.itn, g.pubn, g.tn, g.tnv, g.tne
  flag locks yes
  flag spawn yes
  call core.Algo.notifChannel.recv(c) [delivered C23] g.tn == 0 || unbox(CTRL(algo.conf), *core.CtrlConf).StatusNotifier == nil
  inv g.tn == 0 || unbox(CTRL(algo.conf), *core.CtrlConf).StatusNotifier == nil
  inv SETTLED()

# ---- the run ----
# the last evaluation of the condition was made at the moment g.ev, and nothing was asked since (g.evd)
def ITERHOLDS(n: int, p: int, m: iface): bool := (n > 0 || p > 0) && ITERS0(m, g.ev) >= n + PUSHED0(m, g.ev) * p
func core.(*Algo).run(algo) ()
  props C22, C23, C24, C25, C26, C29
  requires algo != nil && !isnil(algo.impl) && !isnil(algo.conf)
  requires [thread] g.runner == 1 && SETTLED() && g.fail == 0 && isnil(g.panicked) && g.frec == 0 && g.idl == 0 && g.chg == 0 && g.rcv == 0
  flag noframe yes
  flag locks yes
  flag spawn g.runs
  call core.Impl.Iterate(i, m) [running C25] algo.status.Value == core.Running
  call core.Impl.Iterate(i, m) [budget C25] g.evd == 1 && !ITERHOLDS(unbox(CTRL(algo.conf), *core.CtrlConf).Iter, unbox(CTRL(algo.conf), *core.CtrlConf).IterPerData, boxed(algo))
  call core.Impl.Iterate(i, m) [finishing C25] g.evd == 1 && (isnil(unbox(CTRL(algo.conf), *core.CtrlConf).Finishing) || !FIN0(unbox(CTRL(algo.conf), *core.CtrlConf).Finishing, boxed(algo), g.ev))
  call core.Impl.Iterate(i, m) [centroids C25] typeis(m, core.SimpleOCModel) && unbox(m, core.SimpleOCModel).centroids == algo.centroids
  call core.Impl.Iterate(i, m) [taken C23] g.rcv == 0
  call core.Impl.Iterate(i, m) [published C25] g.pubn == 0
  call core.Impl.Iterate(i, m) [alive C26] g.fail == 0
  ensures [failed C26] g.fail == 1 ==> g.frec == 1 && g.fv == core.Finished && g.fe == g.ierr
  ensures [panicked C26] !isnil(g.panicked) ==> g.frec == 1 && g.fv == core.Finished && MENTIONS(g.fe, g.panicked)
  ensures [end C25] g.fail == 0 && isnil(g.panicked) ==> (g.usv == core.Ready && g.done) || g.usv == core.Finished || (g.usv == core.Idle && (g.idl >= 2 || g.chg == old(g.chg) + 1))
  ensures [settled] SETTLED()
  inv SETTLED() && isnil(g.panicked)
  inv g.frec == 0
  inv g.usv == algo.status.Value
  inv g.idl >= 0
  inv g.chg > 0
  inv BUSY(g.usv) || g.usv == core.Finished
  inv g.usv == core.Idle ==> g.idl >= 2 || g.chg == old(g.chg) + 1
  inv ($e: phi iface) g.fail == ite(isnil($e), 0, 1)
  inv ($e: phi iface) g.fail == 1 ==> $e == g.ierr
  inv g.rcv == 0

property C22
  verify core.(*Algo).Centroids, core.(*Algo).Space, core.(*Algo).Conf, core.(*Algo).Impl, core.(*Algo).RuntimeFigures, core.(*Algo).Status, core.(*Algo).Predict
  verify core.(*Algo).init, core.(*Algo).Init, core.(*Algo).Play, core.(*Algo).Pause, core.(*Algo).interrupt, core.(*Algo).Stop, core.(*Algo).Push, core.(*Algo).Batch, core.(*Algo).Copy, core.(*Algo).CanNeverFinish, core.(*Algo).Wait
  verify core.(*Algo).notificationLoop, core.(*Algo).run, core.WaitTimeout, core.(*timeout).wait, core.(*timeout).interrupt, core.(*timeout).Enabled, core.(*timeout).Disable, core.InterruptionTimeout, core.IsFinished
property C23
  verify core.(*Algo).init, core.(*Algo).Init, core.(*Algo).Play, core.(*Algo).Pause, core.(*Algo).interrupt, core.(*Algo).Stop, core.(*Algo).Wait, core.(*Algo).Status, core.(*Algo).notificationLoop, core.(*Algo).run, core.NewAlgo
property C24
  verify core.NewAlgo, core.(*Algo).init, core.(*Algo).Init, core.(*Algo).Play, core.(*Algo).Push, core.(*Algo).run, core.(*Algo).RuntimeFigures
property C25
  verify core.(*Algo).run, core.(*Algo).Play, core.(*Algo).init, core.NewIterFinishing, core.NewOrFinishing
property C26
  verify core.(*Algo).run, core.(*Algo).init, core.(*Algo).Init, core.(*Algo).Play
property C29
  verify core.(*timeout).wait, core.WaitTimeout, core.(*Algo).CanNeverFinish, core.(*Algo).Wait, core.(*timeout).interrupt, core.(*timeout).Enabled, core.(*timeout).Disable, core.InterruptionTimeout
