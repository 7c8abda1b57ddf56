# ---- streaming (C18, C19) --------------------------------------------------------
# the last normal draw, standardised
ghost z: real
extern distuv.Normal.Rand(n) (x)
  modifies g.z
  ensures x == n.Mu + g.z * n.Sigma

rec SUMC(r: row[int], lo: int, n: int): int on n := ite(n <= 0, 0, SUMC(r, lo, n - 1) + r[lo + n - 1])
lemma SUMCeq(r: row[int], lo: int, s: row[int], lo2: int, n: int) induction n
  requires forall i {s[lo2 + i]} :: 0 <= i < n ==> s[lo2 + i] == r[lo + i]
  ensures SUMC(s, lo2, n) == SUMC(r, lo, n)
  trigger SUMC(s, lo2, n), SUMC(r, lo, n)
lemma SUMCstore(r: row[int], lo: int, n: int, m: int, v: int) induction n
  use SUMCeq
  requires lo <= m && m < lo + n
  ensures SUMC(store(r, m, v), lo, n) == SUMC(r, lo, n) - r[m] + v
  trigger SUMC(store(r, m, v), lo, n)

# one cardinality per center, at least 1, adding up to the number of elements consumed
def ACCOUNT(m: *streaming.Impl): bool := len(m.cards) == len(m.clust) && (forall i :: 0 <= i < len(m.cards) ==> m.cards[i] >= 1)

func streaming.(*Impl).UpdateMaxDistance(impl, distance) ()
  requires impl != nil
  modifies impl.maxDistance
  ensures [max] impl.maxDistance == ite(distance > old(impl.maxDistance), distance, old(impl.maxDistance))
func streaming.(*Impl).GetMaxDistance(impl) (r)
  requires impl != nil
  ensures [max] r == impl.maxDistance
func streaming.(*Impl).GetRelativeDistance(impl, distance) (r)
  requires impl != nil
  modifies impl.maxDistance
  ensures [max] impl.maxDistance == ite(old(impl.maxDistance) == 0.0, distance, old(impl.maxDistance))
  ensures [ratio] r == distance / impl.maxDistance
func streaming.(*Impl).GetClusters(impl) (r)
  requires impl != nil
  ensures [clust] r == impl.clust

func streaming.(*Impl).AddCenter(impl, cluster, distance) ()
  requires impl != nil && len(impl.cards) == len(impl.clust)
  modifies impl.clust, impl.cards, impl.maxDistance, array0(impl.clust), array0(impl.cards)
  ensures [count] len(impl.clust) == old(len(impl.clust)) + 1 && len(impl.cards) == old(len(impl.cards)) + 1
  ensures [new] impl.clust[old(len(impl.clust))] == cluster && impl.cards[old(len(impl.clust))] == 1
  use SUMCeq
  ensures [sum] SUMC(row(impl.cards), off(impl.cards), len(impl.cards)) == old(SUMC(row(impl.cards), off(impl.cards), len(impl.cards))) + 1
  ensures [kept] forall i :: 0 <= i < old(len(impl.clust)) ==> impl.clust[i] == old(impl.clust[i])
  ensures [keptcards] forall i :: 0 <= i < old(len(impl.clust)) ==> impl.cards[i] == old(impl.cards[i])
  ensures [max] impl.maxDistance == ite(distance > old(impl.maxDistance), distance, old(impl.maxDistance))
  ensures [storage] (base(impl.clust) == old(base(impl.clust)) || fresh(impl.clust)) && (base(impl.cards) == old(base(impl.cards)) || fresh(impl.cards))
func streaming.(*Impl).AddOutlier(impl, outlier) ()
  requires impl != nil && len(impl.cards) == len(impl.clust)
  modifies impl.clust, impl.cards, array0(impl.clust), array0(impl.cards)
  ensures [count] len(impl.clust) == old(len(impl.clust)) + 1 && len(impl.cards) == old(len(impl.cards)) + 1
  ensures [new] impl.clust[old(len(impl.clust))] == outlier && impl.cards[old(len(impl.clust))] == 1
  use SUMCeq
  ensures [sum] SUMC(row(impl.cards), off(impl.cards), len(impl.cards)) == old(SUMC(row(impl.cards), off(impl.cards), len(impl.cards))) + 1
  ensures [kept] forall i :: 0 <= i < old(len(impl.clust)) ==> impl.clust[i] == old(impl.clust[i])
  ensures [keptcards] forall i :: 0 <= i < old(len(impl.clust)) ==> impl.cards[i] == old(impl.cards[i])
  ensures [storage] (base(impl.clust) == old(base(impl.clust)) || fresh(impl.clust)) && (base(impl.cards) == old(base(impl.cards)) || fresh(impl.cards))
func streaming.(*Impl).UpdateCenter(impl, label, elemt, distance, space) ()
  requires impl != nil && space != nil && len(impl.cards) == len(impl.clust) && 0 <= label && label < len(impl.clust)
  requires impl.cards[label] >= 1
  modifies impl.maxDistance, array0(impl.clust), array0(impl.cards)
  ensures [count] len(impl.clust) == old(len(impl.clust)) && len(impl.cards) == old(len(impl.cards))
  use SUMCstore
  ensures [sum] SUMC(row(impl.cards), off(impl.cards), len(impl.cards)) == old(SUMC(row(impl.cards), off(impl.cards), len(impl.cards))) + 1
  ensures [card] impl.cards[label] == old(impl.cards[label]) + 1
  ensures [combined] forall d, w {TOT(impl.clust[label], d, w)} :: w == impl.cards[label] ==> TOT(impl.clust[label], d, w) == old(TOT(impl.clust[label], d, impl.cards[label])) + TOT(elemt, d, 1)
  ensures [kept] forall i :: 0 <= i < len(impl.clust) && i != label ==> impl.clust[i] == old(impl.clust[i])
  ensures [keptcards] forall i :: 0 <= i < len(impl.clust) && i != label ==> impl.cards[i] == old(impl.cards[i])
  ensures [max] impl.maxDistance == ite(distance > old(impl.maxDistance), distance, old(impl.maxDistance))

# the nearest center, its distance, the maximal distance it is compared with
def NEAR(m: *streaming.Impl, s: iface, e: iface): int := NL(s, m.clust, e, len(m.clust))
def NDIST(m: *streaming.Impl, s: iface, e: iface): real := DIST(s, e, m.clust[NEAR(m, s, e)])
def REF(m: *streaming.Impl, s: iface, e: iface): real := ite(m.maxDistance == 0.0, NDIST(m, s, e), m.maxDistance)
def OUT(m: *streaming.Impl, s: iface, e: iface): bool := m.count >= m.conf.OutAfter && NDIST(m, s, e) / REF(m, s, e) > m.conf.OutRatio

func streaming.(*Impl).Process(impl, elemt, space) ()
  requires impl != nil && space != nil && ACCOUNT(impl) && len(impl.clust) > 0
  modifies impl.clust, impl.cards, impl.maxDistance, impl.count, array0(impl.clust), array0(impl.cards), g.z
  use NLprops, SUMCeq, SUMCstore
  ensures [account] ACCOUNT(impl) && len(impl.clust) > 0
  ensures [counted] impl.count == old(impl.count) + 1
  ensures [sum] SUMC(row(impl.cards), off(impl.cards), len(impl.cards)) == old(SUMC(row(impl.cards), off(impl.cards), len(impl.cards))) + 1
  ensures [one C18] len(impl.clust) == old(len(impl.clust)) || len(impl.clust) == old(len(impl.clust)) + 1
  ensures [opened] len(impl.clust) == old(len(impl.clust)) + 1 ==> impl.clust[old(len(impl.clust))] == elemt && impl.cards[old(len(impl.clust))] == 1 && (forall i :: 0 <= i < old(len(impl.clust)) ==> impl.clust[i] == old(impl.clust[i]) && impl.cards[i] == old(impl.cards[i]))
  ensures [joined] len(impl.clust) == old(len(impl.clust)) ==> impl.cards[old(NEAR(impl, space, elemt))] == old(impl.cards[NEAR(impl, space, elemt)]) + 1 && (forall i :: 0 <= i < len(impl.clust) && i != old(NEAR(impl, space, elemt)) ==> impl.clust[i] == old(impl.clust[i]) && impl.cards[i] == old(impl.cards[i]))
  ensures [combined] len(impl.clust) == old(len(impl.clust)) ==> forall d, w {TOT(impl.clust[old(NEAR(impl, space, elemt))], d, w)} :: w == impl.cards[old(NEAR(impl, space, elemt))] ==> TOT(impl.clust[old(NEAR(impl, space, elemt))], d, w) == old(TOT(impl.clust[NEAR(impl, space, elemt)], d, impl.cards[NEAR(impl, space, elemt)])) + TOT(elemt, d, 1)
  ensures [outlier C19] old(OUT(impl, space, elemt)) ==> len(impl.clust) == old(len(impl.clust)) + 1 && impl.maxDistance == old(REF(impl, space, elemt))
  ensures [threshold C19] !old(OUT(impl, space, elemt)) ==> (len(impl.clust) == old(len(impl.clust)) + 1 <==> impl.norm.Mu + g.z * impl.norm.Sigma < old(NDIST(impl, space, elemt) / REF(impl, space, elemt)))
  ensures [max C19] !old(OUT(impl, space, elemt)) ==> impl.maxDistance == ite(old(NDIST(impl, space, elemt)) > old(REF(impl, space, elemt)), old(NDIST(impl, space, elemt)), old(REF(impl, space, elemt)))
  ensures [grows C19] old(NDIST(impl, space, elemt)) >= 0.0 ==> impl.maxDistance >= old(impl.maxDistance)
  ensures [storage] (base(impl.clust) == old(base(impl.clust)) || fresh(impl.clust)) && (base(impl.cards) == old(base(impl.cards)) || fresh(impl.cards))

func streaming.NewImpl(conf, elemts) (r)
  requires conf.BufferSize >= 0
  ensures [queue] r.c != nil && fresh(r.c) && qcap(r.c) == conf.BufferSize && qlen(r.c) == len(elemts) && !qclosed(r.c)
  ensures [order] forall i :: 0 <= i < len(elemts) ==> q(r.c)[i] == elemts[i]
  inv ($i: phi int, $c: chan core.Elemt) qlen($c) == $i && !qclosed($c)
  inv ($i: phi int, $c: chan core.Elemt) forall j :: 0 <= j < $i ==> q($c)[j] == elemts[j]
  ensures [norm] r.norm.Mu == conf.Mu && r.norm.Sigma == conf.Sigma
  ensures [conf] r.conf.OutAfter == conf.OutAfter && r.conf.OutRatio == conf.OutRatio
  ensures [zero] len(r.clust) == 0 && len(r.cards) == 0 && r.maxDistance == 0.0 && r.count == 0

func streaming.(*Impl).Init(impl, model) (clust, err)
  requires impl != nil && impl.c != nil && !qclosed(impl.c) && len(impl.clust) == 0 && len(impl.cards) == 0
  modifies impl.clust, impl.cards, impl.maxDistance, array0(impl.clust), array0(impl.cards), chanof(impl.c)
  use SUMCeq
  inv ($i: phi int, $c: core.Clust) len(impl.clust) == $i && len(impl.cards) == $i && len($c) == 1
  inv ($i: phi int, $c: core.Clust) forall j :: 0 <= j < $i ==> impl.clust[j] == $c[j] && impl.cards[j] == 1
  inv ($i: phi int) SUMC(row(impl.cards), off(impl.cards), $i) == $i
  inv ($c: core.Clust) base(impl.clust) != base($c)
  inv ($c: core.Clust) $c[0] == old(q(impl.c)[0]) && fresh($c)
  inv base(impl.clust) == old(base(impl.clust)) || fresh(impl.clust)
  inv base(impl.cards) == old(base(impl.cards)) || fresh(impl.cards)
  inv old(impl.maxDistance) >= 0.0 ==> impl.maxDistance == old(impl.maxDistance)
  ensures [error] !isnil(err) <==> old(qlen(impl.c)) == 0
  ensures [consumed] isnil(err) ==> qlen(impl.c) == old(qlen(impl.c)) - 1 && (forall j :: 0 <= j < qlen(impl.c) ==> q(impl.c)[j] == old(q(impl.c))[j + 1])
  ensures [first] isnil(err) ==> len(clust) == 1 && clust[0] == old(q(impl.c)[0]) && len(impl.clust) == 1 && impl.clust[0] == old(q(impl.c)[0]) && fresh(clust)
  ensures [account] isnil(err) ==> ACCOUNT(impl) && impl.cards[0] == 1
  ensures [sum] isnil(err) ==> SUMC(row(impl.cards), off(impl.cards), len(impl.cards)) == 1
  ensures [failed] !isnil(err) ==> len(impl.clust) == 0 && len(impl.cards) == 0 && qlen(impl.c) == 0
  ensures [max] old(impl.maxDistance) >= 0.0 ==> impl.maxDistance == old(impl.maxDistance)
  ensures [open] !qclosed(impl.c)

func streaming.(*Impl).Push(impl, elemt, model) (err)
  requires impl != nil && impl.c != nil && !qclosed(impl.c)
  modifies chanof(impl.c)
  ensures [full] !isnil(err) <==> old(qlen(impl.c) == qcap(impl.c))
  ensures [queued] isnil(err) ==> qlen(impl.c) == old(qlen(impl.c)) + 1 && q(impl.c)[old(qlen(impl.c))] == elemt
  ensures [kept] forall j :: 0 <= j < old(qlen(impl.c)) ==> q(impl.c)[j] == old(q(impl.c)[j])
  ensures [refused] !isnil(err) ==> qlen(impl.c) == old(qlen(impl.c))
  ensures [open] !qclosed(impl.c)

func streaming.(*Impl).runtimeFigures(impl) (f)
  requires impl != nil
  ensures [max] dom(f, "maxDistance") && f["maxDistance"] == impl.maxDistance

func streaming.(*Impl).Iterate(impl, model) (clust, figures, err)
  requires impl != nil && !isnil(model) && !isnil(MSPACE(model)) && impl.c != nil && !qclosed(impl.c) && ACCOUNT(impl) && len(impl.clust) > 0
  modifies impl.clust, impl.cards, impl.maxDistance, impl.count, array0(impl.clust), array0(impl.cards), g.z, chanof(impl.c)
  ensures [ok] isnil(err)
  ensures [account] ACCOUNT(impl) && len(impl.clust) > 0
  ensures [idle] old(qlen(impl.c)) == 0 ==> len(clust) == 0 && impl.count == old(impl.count) && impl.clust == old(impl.clust) && impl.cards == old(impl.cards) && impl.maxDistance == old(impl.maxDistance) && qlen(impl.c) == 0
  ensures [consumed] old(qlen(impl.c)) > 0 ==> impl.count == old(impl.count) + 1 && qlen(impl.c) == old(qlen(impl.c)) - 1 && (forall j :: 0 <= j < qlen(impl.c) ==> q(impl.c)[j] == old(q(impl.c))[j + 1])
  ensures [sum] old(qlen(impl.c)) > 0 ==> SUMC(row(impl.cards), off(impl.cards), len(impl.cards)) == old(SUMC(row(impl.cards), off(impl.cards), len(impl.cards))) + 1
  ensures [opened] old(qlen(impl.c)) > 0 && len(impl.clust) == old(len(impl.clust)) + 1 ==> impl.clust[old(len(impl.clust))] == old(q(impl.c)[0])
  ensures [published] old(qlen(impl.c)) > 0 ==> len(clust) == len(impl.clust) && fresh(clust) && (forall i :: 0 <= i < len(clust) ==> clust[i] == impl.clust[i])
  ensures [figures] figures["maxDistance"] == impl.maxDistance

property C18
  verify streaming.NewImpl, streaming.(*Impl).Init, streaming.(*Impl).Push, streaming.(*Impl).Iterate, streaming.(*Impl).Process, streaming.(*Impl).AddCenter, streaming.(*Impl).AddOutlier, streaming.(*Impl).UpdateCenter, streaming.(*Impl).GetClusters
  lemmas SUMCeq, SUMCstore
property C19
  verify streaming.(*Impl).Process, streaming.(*Impl).GetRelativeDistance, streaming.(*Impl).GetMaxDistance, streaming.(*Impl).UpdateMaxDistance, streaming.(*Impl).Iterate, streaming.(*Impl).runtimeFigures, streaming.NewImpl
