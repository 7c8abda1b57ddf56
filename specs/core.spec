# ---- abstract space -------------------------------------------------------
# DIST is the distance a space gives to two elements (elements are values: nothing
# under contract modifies an element, which C07/C08/C27 check for the code in reach).
spec DIST(s: iface, a: iface, b: iface): real

iface core.Space.Dist(s, a, b) (d)
  ensures d == DIST(s, a, b)
  flag noalloc yes

# NL(s,c,e,n): index of the first minimum of DIST(s,e,c[j]) over j < n, -1 when n <= 0
rec NL(s: iface, c: seq[iface], e: iface, n: int): int on n :=
  ite(n <= 0, 0 - 1, ite(NL(s, c, e, n - 1) < 0 || DIST(s, e, c[n - 1]) < DIST(s, e, c[NL(s, c, e, n - 1)]), n - 1, NL(s, c, e, n - 1)))

lemma NLprops(s: iface, c: seq[iface], e: iface, n: int) induction n
  requires n > 0
  ensures 0 <= NL(s, c, e, n) && NL(s, c, e, n) < n
    && (forall j :: 0 <= j < n ==> DIST(s, e, c[j]) >= DIST(s, e, c[NL(s, c, e, n)]))
    && (forall j :: 0 <= j < NL(s, c, e, n) ==> DIST(s, e, c[j]) > DIST(s, e, c[NL(s, c, e, n)]))
  trigger NL(s, c, e, n)

func core.(*Clust).nearest(c, elemt, space) (label, min)
  requires c != nil && space != nil
  ensures [none C01] len(*c) == 0 ==> label == 0 - 1 && min == 0 - 1
  ensures [inrange] len(*c) > 0 ==> 0 <= label < len(*c)
  ensures [dist] len(*c) > 0 ==> min == DIST(space, elemt, (*c)[label])
  ensures [minimal C01] forall j :: 0 <= j < len(*c) ==> DIST(space, elemt, (*c)[j]) >= min
  ensures [lowest C01] forall j :: 0 <= j < label ==> DIST(space, elemt, (*c)[j]) > min
  ensures [nl] label == NL(space, *c, elemt, len(*c))
  use NLprops
  inv ($i: phi int, $l: phi int, $m: phi real) 0 < $i ==> 0 <= $l < $i && $m == DIST(space, elemt, (*c)[$l])
  inv ($i: phi int, $l: phi int, $m: phi real) $i == 0 ==> $l == 0 - 1 && $m == 0 - 1
  inv ($i: phi int, $m: phi real) forall j :: 0 <= j < $i ==> DIST(space, elemt, (*c)[j]) >= $m
  inv ($l: phi int, $m: phi real) forall j :: 0 <= j < $l ==> DIST(space, elemt, (*c)[j]) > $m

func core.(*Clust).Assign(c, elemt, space) (centroid, label, dist)
  requires c != nil && space != nil
  ensures [nl] label == NL(space, *c, elemt, len(*c))
  ensures [centroid] len(*c) > 0 ==> 0 <= label < len(*c) && centroid == (*c)[label] && dist == DIST(space, elemt, (*c)[label])
  ensures [none C01] len(*c) == 0 ==> isnil(centroid) && label == 0 - 1 && dist == 0 - 1
  use NLprops

func core.(*Clust).MapLabel(c, elemts, space) (labels, dists)
  requires c != nil && space != nil
  ensures [lens] len(labels) == len(elemts) && len(dists) == len(elemts)
  ensures [labels] forall i :: 0 <= i < len(elemts) ==> labels[i] == NL(space, *c, elemts[i], len(*c))
  ensures [dists] forall i :: 0 <= i < len(elemts) && len(*c) > 0 ==> dists[i] == DIST(space, elemts[i], (*c)[labels[i]])
  ensures [nodists C01] forall i :: 0 <= i < len(elemts) && len(*c) == 0 ==> dists[i] == 0 - 1
  ensures [fresh] fresh(labels) && fresh(dists) && off(labels) == 0 && off(dists) == 0
  use NLprops
  inv ($i: phi int, $l: []int) forall j :: 0 <= j < $i ==> $l[j] == NL(space, *c, elemts[j], len(*c))
  inv ($i: phi int, $l: []int, $d: []real) len(*c) > 0 ==> forall j :: 0 <= j < $i ==> $d[j] == DIST(space, elemts[j], (*c)[$l[j]])
  inv ($i: phi int, $d: []real) len(*c) == 0 ==> forall j :: 0 <= j < $i ==> $d[j] == 0 - 1

func core.(*Algo).Predict(algo, elemt) (pred, label, dist)
  requires algo != nil && algo.space != nil
  modifies guarded(algo.modelMutex), g.epoch, g.rs, g.acc, g.itn, g.pubn
  flag locks yes
  ensures [nl] label == NL(algo.space, algo.centroids, elemt, len(algo.centroids))
  ensures [pred] len(algo.centroids) > 0 ==> 0 <= label < len(algo.centroids) && pred == algo.centroids[label] && dist == DIST(algo.space, elemt, algo.centroids[label])
  ensures [none C01] len(algo.centroids) == 0 ==> isnil(pred) && label == 0 - 1 && dist == 0 - 1
  use NLprops

property C01
  verify core.(*Clust).nearest, core.(*Clust).Assign, core.(*Clust).MapLabel, core.(*Algo).Predict
  lemmas NLprops
