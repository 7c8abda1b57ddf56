# ---- reductions (C04, C05, C03) -------------------------------------------------
# CO(e, d): d-th coordinate of an element of a vector space. Combine and Copy follow the vector
# space laws (proved for the euclidean and cosinus spaces in C07 and C08, assumed of any other).
spec CO(e: iface, d: int): real
# TOT(e, d, w): w times the coordinate (kept abstract where only its additivity matters)
spec TOT(e: iface, d: int, w: int): real
axiom TOTdef(e: iface, d: int, w: int)
  ensures TOT(e, d, w) == CO(e, d) * real(w)
  trigger TOT(e, d, w)
axiom TOT1(e: iface, d: int)
  ensures TOT(e, d, 1) == CO(e, d)
  trigger TOT(e, d, 1)
lemma MEAN(e: iface, d: int, w: int, sum: real)
  use TOTdef
  requires w != 0 && TOT(e, d, w) == sum
  ensures CO(e, d) == sum / real(w)

iface core.Space.Combine(s, a, wa, b, wb) (r)
  requires [weights] wa + wb != 0
  ensures !isnil(r)
  ensures forall d, w {TOT(r, d, w)} :: w == wa + wb ==> TOT(r, d, w) == TOT(a, d, wa) + TOT(b, d, wb)

# EQE(a, b): a and b are equal elements; distances do not distinguish them
spec EQE(a: iface, b: iface): bool
axiom EQErefl(a: iface, b: iface)
  requires a == b
  ensures EQE(a, b)
  trigger EQE(a, b)
iface core.Space.Copy(s, a) (r)
  ensures [equal C12 C17 C18] EQE(r, a)
  ensures [dist1 C12 C17 C18] forall e: iface {DIST(s, r, e)} :: DIST(s, r, e) == DIST(s, a, e)
  ensures [dist2 C12 C17 C18] forall e: iface {DIST(s, e, r)} :: DIST(s, e, r) == DIST(s, e, a)
  ensures !isnil(a) ==> !isnil(r)
  ensures forall d, w {TOT(r, d, w)} :: TOT(r, d, w) == TOT(a, d, w)

spec POW(x: real, y: real): real
extern math.Pow(x, y) (r)
  ensures r == POW(x, y)
  flag noalloc yes

# cardinality, coordinate sum and loss of cluster k over n elements from index lo
#   ..L: by given labels   ..N: by nearest centroid
rec CNTL(lr: row[int], lo: int, n: int, k: int): int on n :=
  ite(n <= 0, 0, CNTL(lr, lo, n - 1, k) + ite(lr[lo + n - 1] == k, 1, 0))
rec CNTN(s: iface, c: seq[iface], er: row[iface], lo: int, n: int, k: int): int on n :=
  ite(n <= 0, 0, CNTN(s, c, er, lo, n - 1, k) + ite(NL(s, c, er[lo + n - 1], len(c)) == k, 1, 0))
rec SUML(er: row[iface], elo: int, lr: row[int], lo: int, n: int, k: int, d: int): real on n :=
  ite(n <= 0, 0.0, SUML(er, elo, lr, lo, n - 1, k, d) + ite(lr[lo + n - 1] == k, CO(er[elo + n - 1], d), 0.0))
rec SUMN(s: iface, c: seq[iface], er: row[iface], lo: int, n: int, k: int, d: int): real on n :=
  ite(n <= 0, 0.0, SUMN(s, c, er, lo, n - 1, k, d) + ite(NL(s, c, er[lo + n - 1], len(c)) == k, CO(er[lo + n - 1], d), 0.0))
rec LOSSL(s: iface, c: seq[iface], er: row[iface], elo: int, lr: row[int], lo: int, n: int, k: int, p: real): real on n :=
  ite(n <= 0, 0.0, LOSSL(s, c, er, elo, lr, lo, n - 1, k, p) + ite(lr[lo + n - 1] == k, POW(DIST(s, er[elo + n - 1], c[k]), p), 0.0))
rec LOSSN(s: iface, c: seq[iface], er: row[iface], lo: int, n: int, k: int, p: real): real on n :=
  ite(n <= 0, 0.0, LOSSN(s, c, er, lo, n - 1, k, p) + ite(NL(s, c, er[lo + n - 1], len(c)) == k, POW(DIST(s, er[lo + n - 1], c[k]), p), 0.0))
# sums of a list
rec SUMR(r: row[real], lo: int, n: int): real on n := ite(n <= 0, 0.0, SUMR(r, lo, n - 1) + r[lo + n - 1])
rec SUMD(er: row[iface], lo: int, n: int, d: int): real on n := ite(n <= 0, 0.0, SUMD(er, lo, n - 1, d) + CO(er[lo + n - 1], d))
rec SUMWI(w: row[int], lo: int, n: int): int on n := ite(n <= 0, 0, SUMWI(w, lo, n - 1) + w[lo + n - 1])
rec SUMWD(er: row[iface], lo: int, w: row[int], wlo: int, n: int, d: int): real on n :=
  ite(n <= 0, 0.0, SUMWD(er, lo, w, wlo, n - 1, d) + TOT(er[lo + n - 1], d, w[wlo + n - 1]))

lemma CNTNpos(s: iface, c: seq[iface], er: row[iface], lo: int, n: int, k: int) induction n
  ensures CNTN(s, c, er, lo, n, k) >= 0
  trigger CNTN(s, c, er, lo, n, k)
lemma CNTLpos(lr: row[int], lo: int, n: int, k: int) induction n
  ensures CNTL(lr, lo, n, k) >= 0
  trigger CNTL(lr, lo, n, k)

extern floats.Sum(v) (r)
  ensures r == SUMR(row(v), off(v), len(v))
  flag noalloc yes

func core.(*Clust).ReduceDBA(c, elemts, space) (centroids, cards)
  requires c != nil && space != nil
  requires len(*c) > 0 || len(elemts) == 0
  requires forall i :: 0 <= i < len(elemts) ==> !isnil(elemts[i])
  use NLprops, CNTNpos, TOT1
  ensures [lens] len(centroids) == len(*c) && len(cards) == len(*c)
  ensures [fresh] fresh(centroids) && fresh(cards) && off(centroids) == 0 && off(cards) == 0
  ensures [cards] forall k :: 0 <= k < len(*c) ==> cards[k] == CNTN(space, *c, row(elemts), off(elemts), len(elemts), k)
  ensures [means] forall k, d {TOT(centroids[k], d, cards[k])} :: 0 <= k < len(*c) && cards[k] > 0 ==> TOT(centroids[k], d, cards[k]) == SUMN(space, *c, row(elemts), off(elemts), len(elemts), k, d)
  ensures [empty] forall k :: 0 <= k < len(*c) ==> (isnil(centroids[k]) <==> cards[k] == 0)
  inv ($i: phi int, $n: []int) forall k :: 0 <= k < len(*c) ==> $n[k] == CNTN(space, *c, row(elemts), off(elemts), $i, k)
  inv ($i: phi int, $n: []int, $m: core.Clust) forall k, d {TOT($m[k], d, $n[k])} :: 0 <= k < len(*c) && $n[k] > 0 ==> TOT($m[k], d, $n[k]) == SUMN(space, *c, row(elemts), off(elemts), $i, k, d)
  inv ($n: []int) forall k :: 0 <= k < len(*c) ==> $n[k] >= 0
  inv ($n: []int, $m: core.Clust) forall k :: 0 <= k < len(*c) ==> (isnil($m[k]) <==> $n[k] == 0)
  inv ($i: phi int, $n: []int) forall k, d {SUMN(space, *c, row(elemts), off(elemts), $i, k, d)} :: 0 <= k < len(*c) && $n[k] == 0 ==> SUMN(space, *c, row(elemts), off(elemts), $i, k, d) == 0.0

func core.(*Clust).ReduceDBAForLabels(c, elemts, labels, space) (means, cards)
  requires c != nil && space != nil
  requires len(labels) >= len(elemts) && (forall i :: 0 <= i < len(elemts) ==> 0 <= labels[i] && labels[i] < len(*c))
  requires forall i :: 0 <= i < len(elemts) ==> !isnil(elemts[i])
  use CNTLpos, TOT1
  ensures [lens] len(means) == len(*c) && len(cards) == len(*c)
  ensures [fresh] fresh(means) && fresh(cards) && off(means) == 0 && off(cards) == 0
  ensures [cards] forall k :: 0 <= k < len(*c) ==> cards[k] == CNTL(row(labels), off(labels), len(elemts), k)
  ensures [means] forall k, d {TOT(means[k], d, cards[k])} :: 0 <= k < len(*c) && cards[k] > 0 ==> TOT(means[k], d, cards[k]) == SUML(row(elemts), off(elemts), row(labels), off(labels), len(elemts), k, d)
  ensures [empty] forall k :: 0 <= k < len(*c) ==> (isnil(means[k]) <==> cards[k] == 0)
  inv ($i: phi int, $n: []int) forall k :: 0 <= k < len(*c) ==> $n[k] == CNTL(row(labels), off(labels), $i, k)
  inv ($i: phi int, $n: []int, $m: []core.Elemt) forall k, d {TOT($m[k], d, $n[k])} :: 0 <= k < len(*c) && $n[k] > 0 ==> TOT($m[k], d, $n[k]) == SUML(row(elemts), off(elemts), row(labels), off(labels), $i, k, d)
  inv ($n: []int) forall k :: 0 <= k < len(*c) ==> $n[k] >= 0
  inv ($n: []int, $m: []core.Elemt) forall k :: 0 <= k < len(*c) ==> (isnil($m[k]) <==> $n[k] == 0)
  inv ($i: phi int, $n: []int) forall k, d {SUML(row(elemts), off(elemts), row(labels), off(labels), $i, k, d)} :: 0 <= k < len(*c) && $n[k] == 0 ==> SUML(row(elemts), off(elemts), row(labels), off(labels), $i, k, d) == 0.0

func core.DBA(elemts, space) (dba, err)
  requires space != nil
  use TOT1
  ensures [iff] isnil(err) <==> len(elemts) > 0
  ensures [nothing] !isnil(err) ==> isnil(dba)
  ensures [mean] len(elemts) > 0 ==> forall d :: TOT(dba, d, len(elemts)) == SUMD(row(elemts), off(elemts), len(elemts), d)
  inv ($i: phi int, $e: phi core.Elemt) forall d {TOT($e, d, $i)} :: TOT($e, d, $i) == SUMD(row(elemts), off(elemts), $i, d)

func core.WeightedDBA(elemts, weights, space) (dba, err)
  requires space != nil && len(weights) >= len(elemts)
  requires forall i {SUMWI(row(weights), off(weights), i)} :: 0 <= i < len(elemts) ==> SUMWI(row(weights), off(weights), i) + weights[i] != 0
  ensures [iff] isnil(err) <==> len(elemts) > 0
  ensures [nothing] !isnil(err) ==> isnil(dba)
  ensures [mean] len(elemts) > 0 ==> forall d :: TOT(dba, d, SUMWI(row(weights), off(weights), len(elemts))) == SUMWD(row(elemts), off(elemts), row(weights), off(weights), len(elemts), d)
  inv ($i: phi int, $e: phi core.Elemt, $w: phi int) $w == SUMWI(row(weights), off(weights), $i)
  inv ($i: phi int, $e: phi core.Elemt, $w: phi int) forall d {TOT($e, d, $w)} :: TOT($e, d, $w) == SUMWD(row(elemts), off(elemts), row(weights), off(weights), $i, d)

func core.(*Clust).ReduceLoss(c, elemts, space, norm) (losses, cards)
  requires c != nil && space != nil
  requires len(*c) > 0 || len(elemts) == 0
  use NLprops
  ensures [lens] len(losses) == len(*c) && len(cards) == len(*c)
  ensures [fresh] fresh(losses) && fresh(cards) && off(losses) == 0 && off(cards) == 0
  ensures [cards] forall k :: 0 <= k < len(*c) ==> cards[k] == CNTN(space, *c, row(elemts), off(elemts), len(elemts), k)
  ensures [losses] forall k :: 0 <= k < len(*c) ==> losses[k] == LOSSN(space, *c, row(elemts), off(elemts), len(elemts), k, norm)
  inv ($i: phi int, $n: []int) forall k :: 0 <= k < len(*c) ==> $n[k] == CNTN(space, *c, row(elemts), off(elemts), $i, k)
  inv ($i: phi int, $l: []real) forall k :: 0 <= k < len(*c) ==> $l[k] == LOSSN(space, *c, row(elemts), off(elemts), $i, k, norm)

func core.(*Clust).ReduceLossForLabels(c, elemts, labels, space, norm) (losses, cards)
  requires c != nil && space != nil
  requires len(labels) >= len(elemts) && (forall i :: 0 <= i < len(elemts) ==> 0 <= labels[i] && labels[i] < len(*c))
  ensures [lens] len(losses) == len(*c) && len(cards) == len(*c)
  ensures [fresh] fresh(losses) && fresh(cards) && off(losses) == 0 && off(cards) == 0
  ensures [cards] forall k :: 0 <= k < len(*c) ==> cards[k] == CNTL(row(labels), off(labels), len(elemts), k)
  ensures [losses] forall k :: 0 <= k < len(*c) ==> losses[k] == LOSSL(space, *c, row(elemts), off(elemts), row(labels), off(labels), len(elemts), k, norm)
  inv ($i: phi int, $n: []int) forall k :: 0 <= k < len(*c) ==> $n[k] == CNTL(row(labels), off(labels), $i, k)
  inv ($i: phi int, $l: []real) forall k :: 0 <= k < len(*c) ==> $l[k] == LOSSL(space, *c, row(elemts), off(elemts), row(labels), off(labels), $i, k, norm)

# total loss: sum over the clusters of their losses
rec TLOSS(s: iface, c: seq[iface], er: row[iface], lo: int, n: int, p: real, k: int): real on k :=
  ite(k <= 0, 0.0, TLOSS(s, c, er, lo, n, p, k - 1) + LOSSN(s, c, er, lo, n, k - 1, p))
lemma TLOSSsum(s: iface, c: seq[iface], er: row[iface], lo: int, n: int, p: real, r: row[real], m: int) induction m
  requires forall k :: 0 <= k < m ==> r[k] == LOSSN(s, c, er, lo, n, k, p)
  ensures SUMR(r, 0, m) == TLOSS(s, c, er, lo, n, p, m)
  trigger SUMR(r, 0, m), TLOSS(s, c, er, lo, n, p, m)

func core.(*Clust).TotalLoss(c, elemts, space, norm) (loss)
  requires c != nil && space != nil
  requires len(*c) > 0 || len(elemts) == 0
  use TLOSSsum
  ensures [total] loss == TLOSS(space, *c, row(elemts), off(elemts), len(elemts), norm, len(*c))

property C04
  verify core.(*Clust).ReduceDBA, core.(*Clust).ReduceDBAForLabels, core.DBA, core.WeightedDBA
  lemmas MEAN

property C05
  verify core.(*Clust).ReduceLoss, core.(*Clust).ReduceLossForLabels, core.(*Clust).TotalLoss
