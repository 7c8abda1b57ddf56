# ---- waiting and interruption (C29) ------------------------------------------------
ghost slept: int

def DEFAULTWAIT(m: iface): bool := !isnil(ERROROF(m)) || STATUSOF(m) == core.Ready || STATUSOF(m) == core.Idle || STATUSOF(m) == core.Finished
def PAST(d: int): bool := d > 0 && TM(g.nowt) > TM(g.first) + d
func core.(*timeout).wait(t) (err)
  props C22, C23, C24, C25, C26, C29
  requires t != nil && !isnil(t.ocm)
  requires [thread C29] g.nows == 0
  modifies g.epoch, g.nowt, g.first, g.nows, g.slept, g.done
  flag locks yes
  ensures [outcome C29] (HOLDS(t.finishing, t.ocm) && err == ERROROF(t.ocm)) || (!HOLDS(t.finishing, t.ocm) && PAST(t.duration) && err == core.ErrTimeout)
  inv ($e: phi int) g.nows >= 1 ==> TM($e) == TM(g.first) + t.duration
  inv g.nows >= 1
  inv g.first == loopold(g.first)

func core.WaitTimeout(finishing, duration, ocm) (err)
  props C22, C23, C24, C25, C26, C29
  requires !isnil(ocm)
  requires [thread C29] g.nows == 0
  modifies g.epoch, g.nowt, g.first, g.nows, g.slept, g.done
  flag locks yes
  ensures [outcome C29] (ite(isnil(finishing), DEFAULTWAIT(ocm), FIN(finishing, ocm)) && err == ERROROF(ocm)) || (!ite(isnil(finishing), DEFAULTWAIT(ocm), FIN(finishing, ocm)) && PAST(duration) && err == core.ErrTimeout)

def NEVER(f: iface, d: int, cf: iface, ct: int, ci: int, cp: int): bool := isnil(f) && d <= 0 && isnil(cf) && ct <= 0 && ci == 0 && cp == 0
func core.(*Algo).CanNeverFinish(algo, finishing, timeout) (b)
  props C22, C23, C24, C25, C26, C29
  requires algo != nil && !isnil(algo.conf)
  modifies guarded(algo.modelMutex), g.epoch, g.rs, g.acc, g.itn, g.pubn
  flag locks yes
  ensures [settled] old(SETTLED()) ==> SETTLED()
  ensures [never C29] b == NEVER(finishing, timeout, unbox(CTRL(algo.conf), *core.CtrlConf).Finishing, unbox(CTRL(algo.conf), *core.CtrlConf).Timeout, unbox(CTRL(algo.conf), *core.CtrlConf).Iter, unbox(CTRL(algo.conf), *core.CtrlConf).IterPerData)

func core.(*Algo).Wait(algo, finishing, timeout) (err)
  props C22, C23, C24, C25, C26, C29
  requires algo != nil && !isnil(algo.conf)
  requires [thread] SETTLED()
  requires [thread C29] g.nows == 0
  modifies guarded(algo.modelMutex), guarded(algo.statusMutex), g.epoch, g.nowt, g.first, g.nows, g.slept, g.done, g.rs, g.acc, g.itn, g.pubn
  flag locks yes
  ensures [settled] SETTLED()
  ensures [idle C23 C29] acq(algo.status.Value) == core.Idle ==> err == core.ErrIdle
  ensures [created C23] acq(algo.status.Value) == core.Created ==> err == core.ErrNotRunning
  ensures [over C23] acq(algo.status.Value) == core.Ready || acq(algo.status.Value) == core.Finished ==> isnil(err)
  ensures [never C29] acq(algo.status.Value) == core.Running && NEVER(finishing, timeout, unbox(CTRL(algo.conf), *core.CtrlConf).Finishing, unbox(CTRL(algo.conf), *core.CtrlConf).Timeout, unbox(CTRL(algo.conf), *core.CtrlConf).Iter, unbox(CTRL(algo.conf), *core.CtrlConf).IterPerData) ==> err == core.ErrNeverFinish
  ensures [outcome C29] acq(algo.status.Value) == core.Running && !NEVER(finishing, timeout, unbox(CTRL(algo.conf), *core.CtrlConf).Finishing, unbox(CTRL(algo.conf), *core.CtrlConf).Timeout, unbox(CTRL(algo.conf), *core.CtrlConf).Iter, unbox(CTRL(algo.conf), *core.CtrlConf).IterPerData) ==> (ite(isnil(finishing), DEFAULTWAIT(boxed(algo)), FIN(finishing, boxed(algo))) && err == ERROROF(boxed(algo))) || (!ite(isnil(finishing), DEFAULTWAIT(boxed(algo)), FIN(finishing, boxed(algo))) && PAST(timeout) && err == core.ErrTimeout)

# ---- interruption after a time limit ----
guard core.timeout.mutex
  props C22, C29
  fields enabled
  reads
  step [disabled C29] !acq(self.enabled) ==> !self.enabled
functype core.timeout.interruption(f, e) (err)
  requires [nolocks C22] nolocks()
  modifies g.epoch
iface core.Timeout.Disable(t) ()
  flag noalloc yes
iface core.Timeout.Enabled(t) (b)
  flag noalloc yes
func core.(*timeout).Enabled(t) (b)
  requires t != nil
  modifies guarded(t.mutex)
  flag locks yes
  flag inline yes
  ensures [enabled C29] b == acq(t.enabled)
func core.(*timeout).Disable(t) ()
  requires t != nil
  modifies guarded(t.mutex), t.enabled
  flag locks yes
  ensures [disabled C29] !t.enabled
func core.(*timeout).interrupt(t) ()
  requires t != nil && t.interruption != nil
  requires [thread C29] g.slept == 0
  modifies guarded(t.mutex), g.epoch, g.slept
  flag locks yes
  flag spawn yes
  call core.timeout.interruption(f, e) [enabled C29] acq(t.enabled) && e == core.ErrTimeout
  call core.timeout.interruption(f, e) [elapsed C29] g.slept == t.duration
func core.InterruptionTimeout(duration, interruption) (result)
  requires interruption != nil
  flag locks yes
  call core.(*timeout).interrupt(t) [armed C29] t.enabled && t.duration == duration
  ensures [enabled C29] typeis(result, *core.timeout) && fresh(unbox(result, *core.timeout))
  ensures [some] !isnil(result)
