# ---- parallel operations (C03) -------------------------------------------------
# splitting a range of elements: sums over [lo, lo+n) and [mid, mid+m) with mid = lo+n
lemma CNTNsplit(s: iface, c: seq[iface], er: row[iface], lo: int, n: int, mid: int, m: int, t: int, k: int) induction m
  requires n >= 0 && m >= 0 && t == n + m && mid == lo + n
  ensures CNTN(s, c, er, lo, t, k) == CNTN(s, c, er, lo, n, k) + CNTN(s, c, er, mid, m, k)
  trigger CNTN(s, c, er, lo, n, k), CNTN(s, c, er, mid, m, k), CNTN(s, c, er, lo, t, k)
lemma CNTLsplit(lr: row[int], lo: int, n: int, mid: int, m: int, t: int, k: int) induction m
  requires n >= 0 && m >= 0 && t == n + m && mid == lo + n
  ensures CNTL(lr, lo, t, k) == CNTL(lr, lo, n, k) + CNTL(lr, mid, m, k)
  trigger CNTL(lr, lo, n, k), CNTL(lr, mid, m, k), CNTL(lr, lo, t, k)
lemma LOSSNsplit(s: iface, c: seq[iface], er: row[iface], lo: int, n: int, mid: int, m: int, t: int, k: int, p: real) induction m
  requires n >= 0 && m >= 0 && t == n + m && mid == lo + n
  ensures LOSSN(s, c, er, lo, t, k, p) == LOSSN(s, c, er, lo, n, k, p) + LOSSN(s, c, er, mid, m, k, p)
  trigger LOSSN(s, c, er, lo, n, k, p), LOSSN(s, c, er, mid, m, k, p), LOSSN(s, c, er, lo, t, k, p)
lemma LOSSLsplit(s: iface, c: seq[iface], er: row[iface], elo: int, lr: row[int], lo: int, n: int, emid: int, mid: int, m: int, t: int, k: int, p: real) induction m
  requires n >= 0 && m >= 0 && t == n + m && mid == lo + n && emid == elo + n
  ensures LOSSL(s, c, er, elo, lr, lo, t, k, p) == LOSSL(s, c, er, elo, lr, lo, n, k, p) + LOSSL(s, c, er, emid, lr, mid, m, k, p)
  trigger LOSSL(s, c, er, elo, lr, lo, n, k, p), LOSSL(s, c, er, emid, lr, mid, m, k, p), LOSSL(s, c, er, elo, lr, lo, t, k, p)
lemma SUMNsplit(s: iface, c: seq[iface], er: row[iface], lo: int, n: int, mid: int, m: int, t: int, k: int, d: int) induction m
  requires n >= 0 && m >= 0 && t == n + m && mid == lo + n
  ensures SUMN(s, c, er, lo, t, k, d) == SUMN(s, c, er, lo, n, k, d) + SUMN(s, c, er, mid, m, k, d)
  trigger SUMN(s, c, er, lo, n, k, d), SUMN(s, c, er, mid, m, k, d), SUMN(s, c, er, lo, t, k, d)
lemma SUMLsplit(er: row[iface], elo: int, lr: row[int], lo: int, n: int, emid: int, mid: int, m: int, t: int, k: int, d: int) induction m
  requires n >= 0 && m >= 0 && t == n + m && mid == lo + n && emid == elo + n
  ensures SUML(er, elo, lr, lo, t, k, d) == SUML(er, elo, lr, lo, n, k, d) + SUML(er, emid, lr, mid, m, k, d)
  trigger SUML(er, elo, lr, lo, n, k, d), SUML(er, emid, lr, mid, m, k, d), SUML(er, elo, lr, lo, t, k, d)
# sums over the partial results of the n first pieces: entry k of the j-th slice, whose base and
# offset are the j-th entries of the rows b and o (from lo)
rec PSI(m: rows[int], b: row[int], o: row[int], lo: int, n: int, k: int): int on n :=
  ite(n <= 0, 0, PSI(m, b, o, lo, n - 1, k) + m[b[lo + n - 1]][o[lo + n - 1] + k])
rec PSF(m: rows[real], b: row[int], o: row[int], lo: int, n: int, k: int): real on n :=
  ite(n <= 0, 0.0, PSF(m, b, o, lo, n - 1, k) + m[b[lo + n - 1]][o[lo + n - 1] + k])
# pb: boundaries of the pieces
lemma PSIn(m: rows[int], b: row[int], o: row[int], lo: int, n: int, k: int, s: iface, c: seq[iface], er: row[iface], elo: int, pb: row[int]) induction n
  use CNTNsplit
  requires n >= 0 && pb[0] == 0 && (forall q :: 0 <= q < n ==> pb[q] <= pb[q + 1]) && (forall q :: 0 <= q <= n ==> pb[q] >= 0)
  requires forall j {pb[j]} :: 0 <= j < n ==> m[b[lo + j]][o[lo + j] + k] == CNTN(s, c, er, elo + pb[j], pb[j + 1] - pb[j], k)
  ensures PSI(m, b, o, lo, n, k) == CNTN(s, c, er, elo, pb[n], k)
  trigger PSI(m, b, o, lo, n, k), CNTN(s, c, er, elo, pb[n], k)
lemma PSIl(m: rows[int], b: row[int], o: row[int], lo: int, n: int, k: int, lr: row[int], llo: int, pb: row[int]) induction n
  use CNTLsplit
  requires n >= 0 && pb[0] == 0 && (forall q :: 0 <= q < n ==> pb[q] <= pb[q + 1]) && (forall q :: 0 <= q <= n ==> pb[q] >= 0)
  requires forall j {pb[j]} :: 0 <= j < n ==> m[b[lo + j]][o[lo + j] + k] == CNTL(lr, llo + pb[j], pb[j + 1] - pb[j], k)
  ensures PSI(m, b, o, lo, n, k) == CNTL(lr, llo, pb[n], k)
  trigger PSI(m, b, o, lo, n, k), CNTL(lr, llo, pb[n], k)
lemma PSFn(m: rows[real], b: row[int], o: row[int], lo: int, n: int, k: int, s: iface, c: seq[iface], er: row[iface], elo: int, p: real, pb: row[int]) induction n
  use LOSSNsplit
  requires n >= 0 && pb[0] == 0 && (forall q :: 0 <= q < n ==> pb[q] <= pb[q + 1]) && (forall q :: 0 <= q <= n ==> pb[q] >= 0)
  requires forall j {pb[j]} :: 0 <= j < n ==> m[b[lo + j]][o[lo + j] + k] == LOSSN(s, c, er, elo + pb[j], pb[j + 1] - pb[j], k, p)
  ensures PSF(m, b, o, lo, n, k) == LOSSN(s, c, er, elo, pb[n], k, p)
  trigger PSF(m, b, o, lo, n, k), LOSSN(s, c, er, elo, pb[n], k, p)
lemma PSFl(m: rows[real], b: row[int], o: row[int], lo: int, n: int, k: int, s: iface, c: seq[iface], er: row[iface], elo: int, lr: row[int], llo: int, p: real, pb: row[int]) induction n
  use LOSSLsplit
  requires n >= 0 && pb[0] == 0 && (forall q :: 0 <= q < n ==> pb[q] <= pb[q + 1]) && (forall q :: 0 <= q <= n ==> pb[q] >= 0)
  requires forall j {pb[j]} :: 0 <= j < n ==> m[b[lo + j]][o[lo + j] + k] == LOSSL(s, c, er, elo + pb[j], lr, llo + pb[j], pb[j + 1] - pb[j], k, p)
  ensures PSF(m, b, o, lo, n, k) == LOSSL(s, c, er, elo, lr, llo, pb[n], k, p)
  trigger PSF(m, b, o, lo, n, k), LOSSL(s, c, er, elo, lr, llo, pb[n], k, p)
# nothing received: nothing summed
lemma SUMNzero(s: iface, c: seq[iface], er: row[iface], lo: int, n: int, k: int, d: int) induction n
  use CNTNpos
  requires CNTN(s, c, er, lo, n, k) == 0
  ensures SUMN(s, c, er, lo, n, k, d) == 0.0
  trigger SUMN(s, c, er, lo, n, k, d)
lemma SUMLzero(er: row[iface], elo: int, lr: row[int], lo: int, n: int, k: int, d: int) induction n
  use CNTLpos
  requires CNTL(lr, lo, n, k) == 0
  ensures SUML(er, elo, lr, lo, n, k, d) == 0.0
  trigger SUML(er, elo, lr, lo, n, k, d)

func core.(*Clust).ParMapLabel(c, elemts, space, degree) (labels, dists)
  requires c != nil && space != nil
  requires degree >= 1
  ensures [lens] len(labels) == len(elemts) && len(dists) == len(elemts)
  ensures [labels] forall i :: 0 <= i < len(elemts) ==> labels[i] == NL(space, *c, elemts[i], len(*c))
  ensures [dists] forall i :: 0 <= i < len(elemts) && len(*c) > 0 ==> dists[i] == DIST(space, elemts[i], (*c)[labels[i]])
  ensures [fresh] fresh(labels) && fresh(dists) && off(labels) == 0 && off(dists) == 0
  use NLprops
  inv ($r: phi int, $l: []int) forall i :: 0 <= i < g.pb[$r] ==> $l[i] == NL(space, *c, elemts[i], len(*c))
  inv ($r: phi int, $d: []real, $l: []int) len(*c) > 0 ==> forall i :: 0 <= i < g.pb[$r] ==> $d[i] == DIST(space, elemts[i], (*c)[NL(space, *c, elemts[i], len(*c))])

# weighted means of the pieces
def WT(e: iface, d: int, w: int): real := ite(w > 0, TOT(e, d, w), 0.0)
rec PSD(m: rows[int], b: row[int], o: row[int], me: rows[iface], eb: row[int], eo: row[int], lo: int, n: int, k: int, d: int): real on n :=
  ite(n <= 0, 0.0, PSD(m, b, o, me, eb, eo, lo, n - 1, k, d) + WT(me[eb[lo + n - 1]][eo[lo + n - 1] + k], d, m[b[lo + n - 1]][o[lo + n - 1] + k]))
lemma PSDn(m: rows[int], b: row[int], o: row[int], me: rows[iface], eb: row[int], eo: row[int], lo: int, n: int, k: int, d: int, s: iface, c: seq[iface], er: row[iface], elo: int, pb: row[int]) induction n
  use SUMNsplit
  requires n >= 0 && pb[0] == 0 && (forall q :: 0 <= q < n ==> pb[q] <= pb[q + 1]) && (forall q :: 0 <= q <= n ==> pb[q] >= 0)
  requires forall j {pb[j]} :: 0 <= j < n ==> WT(me[eb[lo + j]][eo[lo + j] + k], d, m[b[lo + j]][o[lo + j] + k]) == SUMN(s, c, er, elo + pb[j], pb[j + 1] - pb[j], k, d)
  ensures PSD(m, b, o, me, eb, eo, lo, n, k, d) == SUMN(s, c, er, elo, pb[n], k, d)
  trigger PSD(m, b, o, me, eb, eo, lo, n, k, d), SUMN(s, c, er, elo, pb[n], k, d)
lemma PSDl(m: rows[int], b: row[int], o: row[int], me: rows[iface], eb: row[int], eo: row[int], lo: int, n: int, k: int, d: int, er: row[iface], elo: int, lr: row[int], llo: int, pb: row[int]) induction n
  use SUMLsplit
  requires n >= 0 && pb[0] == 0 && (forall q :: 0 <= q < n ==> pb[q] <= pb[q + 1]) && (forall q :: 0 <= q <= n ==> pb[q] >= 0)
  requires forall j {pb[j]} :: 0 <= j < n ==> WT(me[eb[lo + j]][eo[lo + j] + k], d, m[b[lo + j]][o[lo + j] + k]) == SUML(er, elo + pb[j], lr, llo + pb[j], pb[j + 1] - pb[j], k, d)
  ensures PSD(m, b, o, me, eb, eo, lo, n, k, d) == SUML(er, elo, lr, llo, pb[n], k, d)
  trigger PSD(m, b, o, me, eb, eo, lo, n, k, d), SUML(er, elo, lr, llo, pb[n], k, d)

func core.dbaCombine(space, aggregate, other) (r)
  requires space != nil
  requires len(aggregate.cards) == len(aggregate.dbas) && len(other.cards) >= len(aggregate.dbas) && len(other.dbas) >= len(aggregate.dbas)
  requires base(aggregate.cards) != base(other.cards) && base(aggregate.dbas) != base(other.dbas)
  requires forall k :: 0 <= k < len(aggregate.dbas) ==> aggregate.cards[k] >= 0
  requires forall k :: 0 <= k < len(aggregate.dbas) ==> other.cards[k] >= 0
  requires forall k :: 0 <= k < len(aggregate.dbas) ==> (isnil(aggregate.dbas[k]) <==> aggregate.cards[k] == 0)
  requires forall k :: 0 <= k < len(aggregate.dbas) ==> (isnil(other.dbas[k]) <==> other.cards[k] == 0)
  modifies array(aggregate.dbas), array(aggregate.cards)
  ensures [same] base(r.dbas) == base(aggregate.dbas) && off(r.dbas) == off(aggregate.dbas) && len(r.dbas) == len(aggregate.dbas)
  ensures [samec] base(r.cards) == base(aggregate.cards) && off(r.cards) == off(aggregate.cards) && len(r.cards) == len(aggregate.cards)
  ensures [cards] forall k :: 0 <= k < len(aggregate.dbas) ==> r.cards[k] == old(aggregate.cards[k]) + other.cards[k]
  ensures [pos] forall k :: 0 <= k < len(aggregate.dbas) ==> r.cards[k] >= 0
  ensures [nil] forall k :: 0 <= k < len(aggregate.dbas) ==> (isnil(r.dbas[k]) <==> r.cards[k] == 0)
  ensures [means] forall k, d {TOT(r.dbas[k], d, r.cards[k])} :: 0 <= k < len(aggregate.dbas) && r.cards[k] > 0 ==> TOT(r.dbas[k], d, r.cards[k]) == WT(old(aggregate.dbas[k]), d, old(aggregate.cards[k])) + WT(other.dbas[k], d, other.cards[k])
  inv ($i: phi int) forall k :: 0 <= k < $i ==> aggregate.cards[k] == old(aggregate.cards[k]) + other.cards[k]
  inv ($i: phi int) forall k :: $i <= k < len(aggregate.dbas) ==> aggregate.cards[k] == old(aggregate.cards[k]) && aggregate.dbas[k] == old(aggregate.dbas[k])
  inv ($i: phi int) forall k :: 0 <= k < $i ==> (isnil(aggregate.dbas[k]) <==> aggregate.cards[k] == 0)
  inv ($i: phi int) forall k, d {TOT(aggregate.dbas[k], d, aggregate.cards[k])} :: 0 <= k < $i && aggregate.cards[k] > 0 ==> TOT(aggregate.dbas[k], d, aggregate.cards[k]) == WT(old(aggregate.dbas[k]), d, old(aggregate.cards[k])) + WT(other.dbas[k], d, other.cards[k])

func core.dbaAggregate(parts, space) (r)
  requires space != nil && len(parts) > 0
  requires forall j :: 0 <= j < len(parts) ==> allocated(parts[j].dbas) && allocated(parts[j].cards)
  requires forall j :: 0 <= j < len(parts) ==> !isnil(parts[j].dbas) && len(parts[j].dbas) == len(parts[0].dbas) && len(parts[j].cards) == len(parts[0].dbas)
  requires forall j {base(parts[j].cards)} :: 0 < j < len(parts) ==> base(parts[j].cards) != base(parts[0].cards)
  requires forall j {base(parts[j].dbas)} :: 0 < j < len(parts) ==> base(parts[j].dbas) != base(parts[0].dbas)
  requires forall j :: 0 <= j < len(parts) ==> off(parts[j].dbas) == 0 && off(parts[j].cards) == 0
  requires forall q, k {mem(parts[0].cards)[leafrow(parts, cards__b)[q]][k]} :: off(parts) <= q < off(parts) + len(parts) && 0 <= k < len(parts[0].dbas) ==> mem(parts[0].cards)[leafrow(parts, cards__b)[q]][k] >= 0
  requires forall q, k {mem(parts[0].dbas)[leafrow(parts, dbas__b)[q]][k]} :: off(parts) <= q < off(parts) + len(parts) && 0 <= k < len(parts[0].dbas) ==> (mem(parts[0].dbas)[leafrow(parts, dbas__b)[q]][k] == 0 <==> mem(parts[0].cards)[leafrow(parts, cards__b)[q]][k] == 0)
  modifies array(parts[0].dbas), array(parts[0].cards)
  ensures [same] base(r.dbas) == base(parts[0].dbas) && off(r.dbas) == off(parts[0].dbas) && len(r.dbas) == len(parts[0].dbas)
  ensures [samec] base(r.cards) == base(parts[0].cards) && off(r.cards) == off(parts[0].cards) && len(r.cards) == len(parts[0].dbas)
  ensures [cards] forall k :: 0 <= k < len(r.dbas) ==> r.cards[k] == PSI(old(mem(parts[0].cards)), leafrow(parts, cards__b), leafrow(parts, cards__o), off(parts), len(parts), k)
  ensures [nil] forall k :: 0 <= k < len(r.dbas) ==> (isnil(r.dbas[k]) <==> r.cards[k] == 0)
  ensures [pos] forall k :: 0 <= k < len(r.dbas) ==> r.cards[k] >= 0
  ensures [means] forall k, d {TOT(r.dbas[k], d, r.cards[k])} :: 0 <= k < len(r.dbas) && r.cards[k] > 0 ==> TOT(r.dbas[k], d, r.cards[k]) == PSD(old(mem(parts[0].cards)), leafrow(parts, cards__b), leafrow(parts, cards__o), old(mem(parts[0].dbas)), leafrow(parts, dbas__b), leafrow(parts, dbas__o), off(parts), len(parts), k, d)
  inv forall b {mem(parts[0].cards)[b]} :: b != base(parts[0].cards) && b <= old(alloc()) ==> mem(parts[0].cards)[b] == old(mem(parts[0].cards)[b])
  inv forall b {mem(parts[0].dbas)[b]} :: b != base(parts[0].dbas) && b <= old(alloc()) ==> mem(parts[0].dbas)[b] == old(mem(parts[0].dbas)[b])
  inv ($i: phi int, $a: *core.dbaPartition) isnil($a.dbas) <==> $i == 0
  inv ($i: phi int, $a: *core.dbaPartition) $i > 0 ==> base($a.dbas) == base(parts[0].dbas) && off($a.dbas) == off(parts[0].dbas) && len($a.dbas) == len(parts[0].dbas)
  inv ($i: phi int, $a: *core.dbaPartition) $i > 0 ==> base($a.cards) == base(parts[0].cards) && off($a.cards) == off(parts[0].cards) && len($a.cards) == len(parts[0].dbas)
  inv ($i: phi int) $i == 0 ==> forall k :: 0 <= k < len(parts[0].dbas) ==> parts[0].cards[k] == old(parts[0].cards[k]) && parts[0].dbas[k] == old(parts[0].dbas[k])
  inv forall k {parts[0].cards[k]} :: 0 <= k < len(parts[0].dbas) ==> parts[0].cards[k] >= 0
  inv forall k {parts[0].dbas[k]} :: 0 <= k < len(parts[0].dbas) ==> (isnil(parts[0].dbas[k]) <==> parts[0].cards[k] == 0)
  inv ($i: phi int) $i > 0 ==> (forall k :: 0 <= k < len(parts[0].dbas) ==> parts[0].cards[k] == PSI(old(mem(parts[0].cards)), leafrow(parts, cards__b), leafrow(parts, cards__o), off(parts), $i, k))
  inv ($i: phi int) $i > 0 ==> (forall k, d {TOT(parts[0].dbas[k], d, parts[0].cards[k])} :: 0 <= k < len(parts[0].dbas) && parts[0].cards[k] > 0 ==> TOT(parts[0].dbas[k], d, parts[0].cards[k]) == PSD(old(mem(parts[0].cards)), leafrow(parts, cards__b), leafrow(parts, cards__o), old(mem(parts[0].dbas)), leafrow(parts, dbas__b), leafrow(parts, dbas__o), off(parts), $i, k, d))
  inv ($i: phi int) $i > 0 ==> (forall k, d {TOT(mem(parts[0].dbas)[base(parts[0].dbas)][k], d, mem(parts[0].cards)[base(parts[0].cards)][k])} :: 0 <= k < len(parts[0].dbas) && mem(parts[0].cards)[base(parts[0].cards)][k] > 0 ==> TOT(mem(parts[0].dbas)[base(parts[0].dbas)][k], d, mem(parts[0].cards)[base(parts[0].cards)][k]) == PSD(old(mem(parts[0].cards)), leafrow(parts, cards__b), leafrow(parts, cards__o), old(mem(parts[0].dbas)), leafrow(parts, dbas__b), leafrow(parts, dbas__o), off(parts), $i, k, d))
  inv ($i: phi int) $i > 0 ==> (forall k, d {PSD(old(mem(parts[0].cards)), leafrow(parts, cards__b), leafrow(parts, cards__o), old(mem(parts[0].dbas)), leafrow(parts, dbas__b), leafrow(parts, dbas__o), off(parts), $i, k, d)} :: 0 <= k < len(parts[0].dbas) && parts[0].cards[k] == 0 ==> PSD(old(mem(parts[0].cards)), leafrow(parts, cards__b), leafrow(parts, cards__o), old(mem(parts[0].dbas)), leafrow(parts, dbas__b), leafrow(parts, dbas__o), off(parts), $i, k, d) == 0.0)

func core.lossAggregate(parts) (r)
  requires len(parts) > 0
  requires forall j :: 0 <= j < len(parts) ==> allocated(parts[j].losses) && allocated(parts[j].cards)
  requires forall j :: 0 <= j < len(parts) ==> !isnil(parts[j].losses) && len(parts[j].losses) == len(parts[0].losses) && len(parts[j].cards) == len(parts[0].losses)
  ensures [lens] len(r.losses) == len(parts[0].losses) && len(r.cards) == len(parts[0].losses)
  ensures [fresh] fresh(r.losses) && fresh(r.cards) && off(r.losses) == 0 && off(r.cards) == 0
  ensures [cards] forall k :: 0 <= k < len(parts[0].losses) ==> r.cards[k] == PSI(old(mem(parts[0].cards)), leafrow(parts, cards__b), leafrow(parts, cards__o), off(parts), len(parts), k)
  ensures [losses] forall k :: 0 <= k < len(parts[0].losses) ==> r.losses[k] == PSF(old(mem(parts[0].losses)), leafrow(parts, losses__b), leafrow(parts, losses__o), off(parts), len(parts), k)
  inv ($i: phi int, $a: *core.partitionLosses) isnil($a.losses) <==> $i == 0
  inv ($a: *core.partitionLosses) !isnil($a.losses)
  inv ($i: phi int, $a: *core.partitionLosses) $i > 0 ==> len($a.losses) == len(parts[0].losses) && len($a.cards) == len(parts[0].losses) && off($a.losses) == 0 && off($a.cards) == 0
  inv ($i: phi int, $a: *core.partitionLosses) $i > 0 ==> fresh($a.losses) && fresh($a.cards)
  inv ($a: *core.partitionLosses) len($a.losses) == len(parts[0].losses) && len($a.cards) == len(parts[0].losses) && off($a.losses) == 0 && off($a.cards) == 0
  inv ($a: *core.partitionLosses) fresh($a.losses) && fresh($a.cards)
  inv ($i: outer int, $j: phi int, $a: *core.partitionLosses) forall k :: $j <= k && k < len(parts[0].losses) ==> $a.cards[k] == PSI(old(mem(parts[0].cards)), leafrow(parts, cards__b), leafrow(parts, cards__o), off(parts), $i, k)
  inv ($i: outer int, $j: phi int, $a: *core.partitionLosses) forall k :: $j <= k && k < len(parts[0].losses) ==> $a.losses[k] == PSF(old(mem(parts[0].losses)), leafrow(parts, losses__b), leafrow(parts, losses__o), off(parts), $i, k)
  inv ($i: outer int, $j: phi int, $a: *core.partitionLosses) forall k :: 0 <= k < $j ==> $a.cards[k] == PSI(old(mem(parts[0].cards)), leafrow(parts, cards__b), leafrow(parts, cards__o), off(parts), $i + 1, k)
  inv ($i: outer int, $j: phi int, $a: *core.partitionLosses) forall k :: 0 <= k < $j ==> $a.losses[k] == PSF(old(mem(parts[0].losses)), leafrow(parts, losses__b), leafrow(parts, losses__o), off(parts), $i + 1, k)
  inv ($i: phi int, $a: *core.partitionLosses) $i > 0 ==> (forall k :: 0 <= k < len(parts[0].losses) ==> $a.cards[k] == PSI(old(mem(parts[0].cards)), leafrow(parts, cards__b), leafrow(parts, cards__o), off(parts), $i, k))
  inv ($i: phi int, $a: *core.partitionLosses) $i > 0 ==> (forall k :: 0 <= k < len(parts[0].losses) ==> $a.losses[k] == PSF(old(mem(parts[0].losses)), leafrow(parts, losses__b), leafrow(parts, losses__o), off(parts), $i, k))

func core.(*Clust).ParReduceLoss(c, elemts, space, norm, degree) (losses, cards)
  requires c != nil && space != nil && degree >= 1
  requires len(*c) > 0
  use NLprops, PSIn, PSFn
  ensures [lens] len(losses) == len(*c) && len(cards) == len(*c)
  ensures [fresh] fresh(losses) && fresh(cards) && off(losses) == 0 && off(cards) == 0
  ensures [cards] forall k :: 0 <= k < len(*c) ==> cards[k] == CNTN(space, *c, row(elemts), off(elemts), len(elemts), k)
  ensures [losses] forall k :: 0 <= k < len(*c) ==> losses[k] == LOSSN(space, *c, row(elemts), off(elemts), len(elemts), k, norm)
  inv ($r: phi int, $p: []core.partitionLosses) forall j :: 0 <= j < $r ==> !isnil($p[j].losses) && len($p[j].losses) == len(*c) && len($p[j].cards) == len(*c) && off($p[j].losses) == 0 && off($p[j].cards) == 0
  inv ($r: phi int, $p: []core.partitionLosses) forall j :: 0 <= j < $r ==> fresh($p[j].losses) && fresh($p[j].cards)
  inv ($r: phi int, $p: []core.partitionLosses) forall j :: 0 <= j < $r ==> allocated($p[j].losses) && allocated($p[j].cards)
  inv ($r: phi int, $p: []core.partitionLosses) forall j, k {$p[j].cards[k]} :: 0 <= j < $r && 0 <= k < len(*c) ==> $p[j].cards[k] == CNTN(space, *c, row(elemts), off(elemts) + g.pb[j], g.pb[j + 1] - g.pb[j], k)
  inv ($r: phi int, $p: []core.partitionLosses) forall j, k {$p[j].losses[k]} :: 0 <= j < $r && 0 <= k < len(*c) ==> $p[j].losses[k] == LOSSN(space, *c, row(elemts), off(elemts) + g.pb[j], g.pb[j + 1] - g.pb[j], k, norm)

func core.(*Clust).ParReduceLossForLabels(c, elemts, labels, space, norm, degree) (losses, cards)
  requires c != nil && space != nil && degree >= 1
  requires len(labels) >= len(elemts) && (forall i :: 0 <= i < len(elemts) ==> 0 <= labels[i] && labels[i] < len(*c))
  use PSIl, PSFl
  ensures [lens] len(losses) == len(*c) && len(cards) == len(*c)
  ensures [fresh] fresh(losses) && fresh(cards) && off(losses) == 0 && off(cards) == 0
  ensures [cards] forall k :: 0 <= k < len(*c) ==> cards[k] == CNTL(row(labels), off(labels), len(elemts), k)
  ensures [losses] forall k :: 0 <= k < len(*c) ==> losses[k] == LOSSL(space, *c, row(elemts), off(elemts), row(labels), off(labels), len(elemts), k, norm)
  inv ($r: phi int, $p: []core.partitionLosses) forall j :: 0 <= j < $r ==> !isnil($p[j].losses) && len($p[j].losses) == len(*c) && len($p[j].cards) == len(*c) && off($p[j].losses) == 0 && off($p[j].cards) == 0
  inv ($r: phi int, $p: []core.partitionLosses) forall j :: 0 <= j < $r ==> fresh($p[j].losses) && fresh($p[j].cards)
  inv ($r: phi int, $p: []core.partitionLosses) forall j :: 0 <= j < $r ==> allocated($p[j].losses) && allocated($p[j].cards)
  inv ($r: phi int, $p: []core.partitionLosses) forall j, k {$p[j].cards[k]} :: 0 <= j < $r && 0 <= k < len(*c) ==> $p[j].cards[k] == CNTL(row(labels), off(labels) + g.pb[j], g.pb[j + 1] - g.pb[j], k)
  inv ($r: phi int, $p: []core.partitionLosses) forall j, k {$p[j].losses[k]} :: 0 <= j < $r && 0 <= k < len(*c) ==> $p[j].losses[k] == LOSSL(space, *c, row(elemts), off(elemts) + g.pb[j], row(labels), off(labels) + g.pb[j], g.pb[j + 1] - g.pb[j], k, norm)

func core.(*Clust).ParTotalLoss(c, elemts, space, norm, degree) (loss)
  requires c != nil && space != nil && degree >= 1
  requires len(*c) > 0
  use TLOSSsum
  ensures [total] loss == TLOSS(space, *c, row(elemts), off(elemts), len(elemts), norm, len(*c))

func core.(*Clust).ParReduceDBA(c, elemts, space, degree) (centroids, cards)
  requires c != nil && space != nil && degree >= 1
  requires len(*c) > 0
  requires forall i :: 0 <= i < len(elemts) ==> !isnil(elemts[i])
  use NLprops, PSIn, PSDn, SUMNzero, CNTNpos
  ensures [lens] len(centroids) == len(*c) && len(cards) == len(*c)
  ensures [fresh] fresh(centroids) && fresh(cards) && off(centroids) == 0 && off(cards) == 0
  ensures [cards] forall k :: 0 <= k < len(*c) ==> cards[k] == CNTN(space, *c, row(elemts), off(elemts), len(elemts), k)
  ensures [empty] forall k :: 0 <= k < len(*c) && cards[k] == 0 ==> centroids[k] == (*c)[k]
  ensures [means] forall k, d {TOT(centroids[k], d, cards[k])} :: 0 <= k < len(*c) && cards[k] > 0 ==> TOT(centroids[k], d, cards[k]) == SUMN(space, *c, row(elemts), off(elemts), len(elemts), k, d)
  inv ($r: phi int, $p: []core.dbaPartition) forall j :: 0 <= j < $r ==> !isnil($p[j].dbas) && len($p[j].dbas) == len(*c) && len($p[j].cards) == len(*c) && off($p[j].dbas) == 0 && off($p[j].cards) == 0
  inv ($r: phi int, $p: []core.dbaPartition) forall j :: 0 <= j < $r ==> fresh($p[j].dbas) && fresh($p[j].cards)
  inv ($r: phi int, $p: []core.dbaPartition) forall j :: 0 <= j < $r ==> allocated($p[j].dbas) && allocated($p[j].cards)
  inv ($r: phi int, $p: []core.dbaPartition) forall j {base($p[j].cards)} :: 0 < j < $r ==> base($p[j].cards) != base($p[0].cards) && base($p[j].dbas) != base($p[0].dbas)
  inv ($r: phi int, $p: []core.dbaPartition) forall q, k {mem($p[0].cards)[leafrow($p, cards__b)[q]][k]} :: 0 <= q < $r && 0 <= k < len(*c) ==> mem($p[0].cards)[leafrow($p, cards__b)[q]][k] >= 0
  inv ($r: phi int, $p: []core.dbaPartition) forall j, k {$p[j].cards[k]} :: 0 <= j < $r && 0 <= k < len(*c) ==> $p[j].cards[k] == CNTN(space, *c, row(elemts), off(elemts) + g.pb[j], g.pb[j + 1] - g.pb[j], k)
  inv ($r: phi int, $p: []core.dbaPartition) forall q, k {mem($p[0].dbas)[leafrow($p, dbas__b)[q]][k]} :: 0 <= q < $r && 0 <= k < len(*c) ==> (mem($p[0].dbas)[leafrow($p, dbas__b)[q]][k] == 0 <==> mem($p[0].cards)[leafrow($p, cards__b)[q]][k] == 0)
  inv ($r: phi int, $p: []core.dbaPartition) forall j, k, d {TOT($p[j].dbas[k], d, $p[j].cards[k])} :: 0 <= j < $r && 0 <= k < len(*c) && $p[j].cards[k] > 0 ==> TOT($p[j].dbas[k], d, $p[j].cards[k]) == SUMN(space, *c, row(elemts), off(elemts) + g.pb[j], g.pb[j + 1] - g.pb[j], k, d)
  inv ($i: phi int, $p: core.Clust, $x: core.dbaPartition) forall k :: 0 <= k < $i ==> $p[k] == ite($x.cards[k] > 0, $x.dbas[k], (*c)[k])
  inv ($i: phi int, $p: core.Clust, $x: *core.dbaPartition) forall k :: 0 <= k < $i ==> $p[k] == ite($x.cards[k] > 0, $x.dbas[k], (*c)[k])

func core.(*Clust).ParReduceDBAForLabels(c, elemts, labels, space, degree) (means, cards)
  requires c != nil && space != nil && degree >= 1
  requires len(labels) >= len(elemts) && (forall i :: 0 <= i < len(elemts) ==> 0 <= labels[i] && labels[i] < len(*c))
  requires forall i :: 0 <= i < len(elemts) ==> !isnil(elemts[i])
  use PSIl, PSDl, SUMLzero, CNTLpos
  ensures [lens] len(means) == len(*c) && len(cards) == len(*c)
  ensures [fresh] fresh(means) && fresh(cards) && off(means) == 0 && off(cards) == 0
  ensures [cards] forall k :: 0 <= k < len(*c) ==> cards[k] == CNTL(row(labels), off(labels), len(elemts), k)
  ensures [empty] forall k :: 0 <= k < len(*c) ==> (isnil(means[k]) <==> cards[k] == 0)
  ensures [means] forall k, d {TOT(means[k], d, cards[k])} :: 0 <= k < len(*c) && cards[k] > 0 ==> TOT(means[k], d, cards[k]) == SUML(row(elemts), off(elemts), row(labels), off(labels), len(elemts), k, d)
  inv ($r: phi int, $p: []core.dbaPartition) forall j :: 0 <= j < $r ==> !isnil($p[j].dbas) && len($p[j].dbas) == len(*c) && len($p[j].cards) == len(*c) && off($p[j].dbas) == 0 && off($p[j].cards) == 0
  inv ($r: phi int, $p: []core.dbaPartition) forall j :: 0 <= j < $r ==> fresh($p[j].dbas) && fresh($p[j].cards)
  inv ($r: phi int, $p: []core.dbaPartition) forall j :: 0 <= j < $r ==> allocated($p[j].dbas) && allocated($p[j].cards)
  inv ($r: phi int, $p: []core.dbaPartition) forall j {base($p[j].cards)} :: 0 < j < $r ==> base($p[j].cards) != base($p[0].cards) && base($p[j].dbas) != base($p[0].dbas)
  inv ($r: phi int, $p: []core.dbaPartition) forall q, k {mem($p[0].cards)[leafrow($p, cards__b)[q]][k]} :: 0 <= q < $r && 0 <= k < len(*c) ==> mem($p[0].cards)[leafrow($p, cards__b)[q]][k] >= 0
  inv ($r: phi int, $p: []core.dbaPartition) forall j, k {$p[j].cards[k]} :: 0 <= j < $r && 0 <= k < len(*c) ==> $p[j].cards[k] == CNTL(row(labels), off(labels) + g.pb[j], g.pb[j + 1] - g.pb[j], k)
  inv ($r: phi int, $p: []core.dbaPartition) forall q, k {mem($p[0].dbas)[leafrow($p, dbas__b)[q]][k]} :: 0 <= q < $r && 0 <= k < len(*c) ==> (mem($p[0].dbas)[leafrow($p, dbas__b)[q]][k] == 0 <==> mem($p[0].cards)[leafrow($p, cards__b)[q]][k] == 0)
  inv ($r: phi int, $p: []core.dbaPartition) forall j, k, d {TOT($p[j].dbas[k], d, $p[j].cards[k])} :: 0 <= j < $r && 0 <= k < len(*c) && $p[j].cards[k] > 0 ==> TOT($p[j].dbas[k], d, $p[j].cards[k]) == SUML(row(elemts), off(elemts) + g.pb[j], row(labels), off(labels) + g.pb[j], g.pb[j + 1] - g.pb[j], k, d)

property C03
  verify core.(*Clust).ParMapLabel, core.(*Clust).ParReduceLoss, core.(*Clust).ParReduceLossForLabels, core.(*Clust).ParTotalLoss, core.(*Clust).ParReduceDBA, core.(*Clust).ParReduceDBAForLabels
  verify core.lossAggregate, core.dbaCombine, core.dbaAggregate
