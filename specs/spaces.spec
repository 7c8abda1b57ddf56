# ---- euclidean and cosinus spaces (C07, C08) -----------------------------------------
# sum of squared differences, scalar product, of n coordinates
rec SQD(a: row[real], alo: int, b: row[real], blo: int, n: int): real on n :=
  ite(n <= 0, 0.0, SQD(a, alo, b, blo, n - 1) + (a[alo + n - 1] - b[blo + n - 1]) * (a[alo + n - 1] - b[blo + n - 1]))
rec SPR(a: row[real], alo: int, b: row[real], blo: int, n: int): real on n :=
  ite(n <= 0, 0.0, SPR(a, alo, b, blo, n - 1) + a[alo + n - 1] * b[blo + n - 1])
lemma SQRpos(x: real)
  ensures x * x >= 0.0
lemma SQDpos(a: row[real], alo: int, b: row[real], blo: int, n: int) induction n
  use SQRpos
  ensures SQD(a, alo, b, blo, n) >= 0.0
  trigger SQD(a, alo, b, blo, n)
lemma SQDsym(a: row[real], alo: int, b: row[real], blo: int, n: int) induction n
  ensures SQD(a, alo, b, blo, n) == SQD(b, blo, a, alo, n)
  trigger SQD(a, alo, b, blo, n), SQD(b, blo, a, alo, n)
lemma SQDeq(a: row[real], alo: int, b: row[real], blo: int, n: int) induction n
  requires forall i :: 0 <= i < n ==> a[alo + i] == b[blo + i]
  ensures SQD(a, alo, b, blo, n) == 0.0
  trigger SQD(a, alo, b, blo, n)
lemma SQDzero(a: row[real], alo: int, b: row[real], blo: int, n: int) induction n
  use SQDpos
  requires SQD(a, alo, b, blo, n) == 0.0
  ensures forall i {a[i]} :: alo <= i < alo + n ==> a[i] == b[blo + i - alo]
  trigger SQD(a, alo, b, blo, n)
lemma SPRsym(a: row[real], alo: int, b: row[real], blo: int, n: int) induction n
  ensures SPR(a, alo, b, blo, n) == SPR(b, blo, a, alo, n)
  trigger SPR(a, alo, b, blo, n), SPR(b, blo, a, alo, n)
lemma SPRpos(a: row[real], alo: int, n: int) induction n
  ensures SPR(a, alo, a, alo, n) >= 0.0
  trigger SPR(a, alo, a, alo, n)
# square root
spec SQRT(x: real): real
axiom SQRTdef(x: real)
  requires x >= 0.0
  ensures SQRT(x) >= 0.0 && SQRT(x) * SQRT(x) == x
  trigger SQRT(x)
extern math.Sqrt(x) (r)
  requires [defined] x >= 0.0
  ensures r == SQRT(x)
  flag noalloc yes
# the non-negative number whose square is given is unique
lemma SQRTone(r: real, s: real)
  requires r >= 0.0 && s >= 0.0 && r * r == s * s
  ensures r == s

func euclid.Space.PointDist(space, point1, point2) (r)
  requires len(point1) == len(point2)
  ensures [positive] r >= 0.0
  ensures [square] r == SQRT(SQD(row(point1), off(point1), row(point2), off(point2), len(point1)))
  ensures [zero] r == 0.0 ==> forall i :: 0 <= i < len(point1) ==> point1[i] == point2[i]
  ensures [equal] (forall i :: 0 <= i < len(point1) ==> point1[i] == point2[i]) ==> r == 0.0
  use SQDpos, SQDeq, SQDzero, SQRTdef
  inv ($i: phi int, $s: phi real) $s == SQD(row(point1), off(point1), row(point2), off(point2), $i)

func euclid.Space.Dist(space, elemt1, elemt2) (r)
  requires isvec(elemt1) && isvec(elemt2)
  requires len(vec(elemt1)) == len(vec(elemt2))
  ensures [positive] r >= 0.0
  ensures [square] r == SQRT(SQD(row(vec(elemt1)), off(vec(elemt1)), row(vec(elemt2)), off(vec(elemt2)), len(vec(elemt1))))

func euclid.Space.PointCombine(space, point1, weight1, point2, weight2) (r)
  requires len(point1) == len(point2)
  requires weight1 + weight2 != 0
  ensures [dim] len(r) == len(point1)
  ensures [fresh] fresh(r)
  ensures [mean] forall i :: 0 <= i < len(point1) ==> r[i] == (point1[i] * real(weight1) + point2[i] * real(weight2)) / (real(weight1) + real(weight2))
  inv ($i: phi int, $r: []real) forall j :: 0 <= j < $i ==> $r[j] == (point1[j] * real(weight1) + point2[j] * real(weight2)) / (real(weight1) + real(weight2))

func euclid.Space.Combine(space, elemt1, weight1, elemt2, weight2) (r)
  requires isvec(elemt1) && isvec(elemt2)
  requires len(vec(elemt1)) == len(vec(elemt2))
  requires weight1 + weight2 != 0
  ensures [type] isvec(r)
  ensures [dim] len(vec(r)) == len(vec(elemt1))
  ensures [fresh] fresh(vec(r))
  ensures [mean] forall i :: 0 <= i < len(vec(elemt1)) ==> vec(r)[i] == (vec(elemt1)[i] * real(weight1) + vec(elemt2)[i] * real(weight2)) / (real(weight1) + real(weight2))

func euclid.Space.PointCopy(space, point) (r)
  ensures [dim] len(r) == len(point)
  ensures [fresh] fresh(r)
  ensures [equal] forall i :: 0 <= i < len(point) ==> r[i] == point[i]
  inv ($i: phi int, $r: []real) forall j :: 0 <= j < $i ==> $r[j] == point[j]

func euclid.Space.Copy(space, elemt) (r)
  requires isvec(elemt)
  ensures [type] isvec(r)
  ensures [dim] len(vec(r)) == len(vec(elemt))
  ensures [fresh] fresh(vec(r))
  ensures [equal] forall i :: 0 <= i < len(vec(elemt)) ==> vec(r)[i] == vec(elemt)[i]

func euclid.Space.Dim(space, data) (dim)
  requires len(data) > 0 ==> isvec(data[0])
  ensures [dim] len(data) > 0 ==> dim == len(vec(data[0]))
  ensures [none] len(data) == 0 ==> dim == 0

func cosinus.ScalarProduct(v1, v2) (r)
  requires len(v1) == len(v2)
  ensures [product] r == SPR(row(v1), off(v1), row(v2), off(v2), len(v1))
  inv ($i: phi int, $s: phi real) $s == SPR(row(v1), off(v1), row(v2), off(v2), $i)
  inv ($i: phi int, $s: phi real) $s == SPR(row(v1), off(v1), row(v2), off(v2), $i + 1)

func cosinus.Norm(v) (r)
  ensures [positive] r >= 0.0
  ensures [square] r == SQRT(SPR(row(v), off(v), row(v), off(v), len(v)))
  use SPRpos, SQRTdef

def NORM(a: row[real], lo: int, n: int): real := SQRT(SPR(a, lo, a, lo, n))
lemma NORMpos(a: row[real], lo: int, n: int)
  use SPRpos, SQRTdef
  requires SPR(a, lo, a, lo, n) != 0.0
  ensures SQRT(SPR(a, lo, a, lo, n)) > 0.0
  trigger SQRT(SPR(a, lo, a, lo, n))

func cosinus.Cosinus(v1, v2) (r)
  requires len(v1) == len(v2)
  requires SPR(row(v1), off(v1), row(v1), off(v1), len(v1)) != 0.0 && SPR(row(v2), off(v2), row(v2), off(v2), len(v2)) != 0.0
  ensures [cosine] r * (NORM(row(v1), off(v1), len(v1)) * NORM(row(v2), off(v2), len(v2))) == SPR(row(v1), off(v1), row(v2), off(v2), len(v1))
  use SPRpos, SQRTdef, NORMpos

# distance: 1 - cosine
func cosinus.Space.PointDist(space, point1, point2) (r)
  requires len(point1) == len(point2)
  requires SPR(row(point1), off(point1), row(point1), off(point1), len(point1)) != 0.0 && SPR(row(point2), off(point2), row(point2), off(point2), len(point2)) != 0.0
  ensures [cosine] (1.0 - r) * (NORM(row(point1), off(point1), len(point1)) * NORM(row(point2), off(point2), len(point2))) == SPR(row(point1), off(point1), row(point2), off(point2), len(point1))

func cosinus.Space.Dist(space, elemt1, elemt2) (r)
  requires isvec(elemt1) && isvec(elemt2) && len(vec(elemt1)) == len(vec(elemt2))
  requires SPR(row(vec(elemt1)), off(vec(elemt1)), row(vec(elemt1)), off(vec(elemt1)), len(vec(elemt1))) != 0.0
  requires SPR(row(vec(elemt2)), off(vec(elemt2)), row(vec(elemt2)), off(vec(elemt2)), len(vec(elemt2))) != 0.0
  ensures [cosine] (1.0 - r) * (NORM(row(vec(elemt1)), off(vec(elemt1)), len(vec(elemt1))) * NORM(row(vec(elemt2)), off(vec(elemt2)), len(vec(elemt2)))) == SPR(row(vec(elemt1)), off(vec(elemt1)), row(vec(elemt2)), off(vec(elemt2)), len(vec(elemt1)))

# two distances given by the contract are the same when the arguments are exchanged, and 0 from a vector to itself
lemma COSsym(a: row[real], alo: int, b: row[real], blo: int, n: int, r: real, s: real)
  use SPRsym, NORMpos
  requires SPR(a, alo, a, alo, n) != 0.0 && SPR(b, blo, b, blo, n) != 0.0
  requires (1.0 - r) * (NORM(a, alo, n) * NORM(b, blo, n)) == SPR(a, alo, b, blo, n)
  requires (1.0 - s) * (NORM(b, blo, n) * NORM(a, alo, n)) == SPR(b, blo, a, alo, n)
  ensures r == s
lemma COSself(a: row[real], alo: int, n: int, r: real)
  use SPRpos, NORMpos, SQRTdef
  requires SPR(a, alo, a, alo, n) != 0.0
  requires (1.0 - r) * (NORM(a, alo, n) * NORM(a, alo, n)) == SPR(a, alo, a, alo, n)
  ensures r == 0.0
# and the euclidean distance is symmetric
lemma EUCsym(a: row[real], alo: int, b: row[real], blo: int, n: int, r: real, s: real)
  use SQDsym
  requires r == SQRT(SQD(a, alo, b, blo, n)) && s == SQRT(SQD(b, blo, a, alo, n))
  ensures r == s

func cosinus.Space.PointCombine(space, point1, weight1, point2, weight2) (r)
  requires len(point1) == len(point2)
  requires weight1 + weight2 != 0
  ensures [dim] len(r) == len(point1)
  ensures [fresh] fresh(r)
  ensures [mean] forall i :: 0 <= i < len(point1) ==> r[i] == (point1[i] * real(weight1) + point2[i] * real(weight2)) / (real(weight1) + real(weight2))
  inv ($i: phi int, $r: []real) forall j :: 0 <= j < $i ==> $r[j] == (point1[j] * real(weight1) + point2[j] * real(weight2)) / (real(weight1) + real(weight2))

func cosinus.Space.Combine(space, elemt1, weight1, elemt2, weight2) (r)
  requires isvec(elemt1) && isvec(elemt2)
  requires len(vec(elemt1)) == len(vec(elemt2))
  requires weight1 + weight2 != 0
  ensures [type] isvec(r)
  ensures [dim] len(vec(r)) == len(vec(elemt1))
  ensures [fresh] fresh(vec(r))
  ensures [mean] forall i :: 0 <= i < len(vec(elemt1)) ==> vec(r)[i] == (vec(elemt1)[i] * real(weight1) + vec(elemt2)[i] * real(weight2)) / (real(weight1) + real(weight2))

func cosinus.Space.PointCopy(space, point) (r)
  ensures [dim] len(r) == len(point)
  ensures [fresh] fresh(r)
  ensures [equal] forall i :: 0 <= i < len(point) ==> r[i] == point[i]
  inv ($i: phi int, $r: []real) forall j :: 0 <= j < $i ==> $r[j] == point[j]

func cosinus.Space.Copy(space, elemt) (r)
  requires isvec(elemt)
  ensures [type] isvec(r)
  ensures [dim] len(vec(r)) == len(vec(elemt))
  ensures [fresh] fresh(vec(r))
  ensures [equal] forall i :: 0 <= i < len(vec(elemt)) ==> vec(r)[i] == vec(elemt)[i]

func cosinus.Space.Dim(space, data) (dim)
  requires len(data) > 0 ==> isvec(data[0])
  ensures [dim] len(data) > 0 ==> dim == len(vec(data[0]))
  ensures [none] len(data) == 0 ==> dim == 0

property C07
  verify euclid.Space.PointDist, euclid.Space.Dist, euclid.Space.PointCombine, euclid.Space.Combine, euclid.Space.PointCopy, euclid.Space.Copy, euclid.Space.Dim
  lemmas SQRpos, SQDpos, SQDsym, SQDeq, SQDzero, EUCsym
property C08
  verify cosinus.ScalarProduct, cosinus.Norm, cosinus.Cosinus, cosinus.Space.PointDist, cosinus.Space.Dist, cosinus.Space.PointCombine, cosinus.Space.Combine, cosinus.Space.PointCopy, cosinus.Space.Copy, cosinus.Space.Dim, euclid.Space.PointCombine, euclid.Space.Combine, euclid.Space.PointCopy, euclid.Space.Copy, euclid.Space.Dim
  lemmas SPRpos, SPRsym, NORMpos, COSsym, COSself
