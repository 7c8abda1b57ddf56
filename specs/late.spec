# ---- late distribution (C28) -----------------------------------------------------
# Building the wrapped distribution is an event of a thread: pend is 1 from the call of the
# builder until the lock is released, blt is what it built and bon the element it was given.
ghost pend: int
ghost blt: iface
ghost bon: iface
ghost nblt: int
functype mcmc.DistribBuilder(f, e) (d)
  requires [once] g.pend == 0
  modifies g.pend, g.blt, g.bon, g.nblt
  ensures g.pend == 1 && g.blt == d && g.bon == e && g.nblt == old(g.nblt) + 1 && !isnil(d)

guard mcmc.LateDistrib.mu
  fields initialized, distrib
  reads
  holds [built] self.initialized ==> !isnil(self.distrib)
  holds [unbuilt] !self.initialized ==> isnil(self.distrib)
  step [first] g.pend == 1 ==> !acq(self.initialized) && self.initialized && self.distrib == g.blt
  step [recorded] self.initialized && !acq(self.initialized) ==> g.pend == 1
  step [kept] acq(self.initialized) ==> self.initialized && self.distrib == acq(self.distrib)
  release g.pend := 0

func mcmc.NewLateDistrib(initializer) (r)
  ensures [unbuilt] r != nil && fresh(r) && !r.initialized && r.initializer == initializer

func mcmc.(*LateDistrib).initialize(d, elemt) (r)
  requires d != nil && d.initializer != nil && g.pend == 0
  modifies d.initialized, d.distrib, g.pend, g.blt, g.bon, g.nblt
  flag locks yes
  call mcmc.DistribBuilder(f, e) [lock] held(d.mu) == 2 && !acq(d.initialized)
  call mcmc.DistribBuilder(f, e) [element] e == elemt && f == d.initializer
  ensures [settled] g.pend == 0
  ensures [same] acq(d.initialized) ==> r == acq(d.distrib)
  ensures [new] !acq(d.initialized) ==> r == g.blt && g.bon == elemt
  ensures [element] g.nblt == ite(acq(d.initialized), old(g.nblt), old(g.nblt) + 1)
  ensures [count] g.nblt == old(g.nblt) || (g.nblt == old(g.nblt) + 1 && g.bon == elemt)
  ensures [built] !isnil(r) && d.initialized && r == d.distrib

func mcmc.(*LateDistrib).Sample(d, mu, time) (r)
  requires d != nil && d.initializer != nil && g.pend == 0
  modifies d.initialized, d.distrib, g.pend, g.blt, g.bon, g.nblt, g.nd, g.chi
  flag locks yes
  ensures [element] g.nblt == old(g.nblt) || (g.nblt == old(g.nblt) + 1 && g.bon == mu)
  ensures [forward] r == MSAM(d.distrib, mu, time, g.nd, g.chi)
  ensures [settled] g.pend == 0
func mcmc.(*LateDistrib).Pdf(d, x, mu, time) (r)
  requires d != nil && d.initializer != nil && g.pend == 0
  modifies d.initialized, d.distrib, g.pend, g.blt, g.bon, g.nblt
  flag locks yes
  ensures [element] g.nblt == old(g.nblt) || (g.nblt == old(g.nblt) + 1 && g.bon == mu)
  ensures [forward] r == MDENS(d.distrib, x, mu, time)
  ensures [settled] g.pend == 0

property C28
  verify mcmc.NewLateDistrib, mcmc.(*LateDistrib).initialize, mcmc.(*LateDistrib).Sample, mcmc.(*LateDistrib).Pdf
