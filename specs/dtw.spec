# ---- dynamic time warping (C09, C10) --------------------------------------------
# PDIST is the distance a point space gives to two points (points are values: nothing
# under contract modifies one)
spec PDIST(s: iface, a: slice, b: slice): real
iface dtw.PointSpace.PointDist(s, p1, p2) (d)
  ensures d == PDIST(s, p1, p2)
  flag noalloc yes

def OUTW(w: int, i: int, j: int): bool := i - j > w || j - i > w
def MIN2(x: real, y: real): real := ite(x <= y, x, y)
# accumulated cost: minimum over the warping paths from (0, 0) to (i, j) that stay in the window,
# infinite outside of it (see DTWmin and C10: it is a lower bound, which the path reaches)
rec DTWC(sp: iface, a: seq[slice], b: seq[slice], w: int, i: int, j: int): real on i,j :=
  ite(OUTW(w, i, j), INF, PDIST(sp, a[i], b[j]) + ite(i == 0 && j == 0, 0.0, ite(i == 0, DTWC(sp, a, b, w, i, j - 1), ite(j == 0, DTWC(sp, a, b, w, i - 1, j),
    MIN2(DTWC(sp, a, b, w, i - 1, j - 1), MIN2(DTWC(sp, a, b, w, i - 1, j), DTWC(sp, a, b, w, i, j - 1)))))))

lemma DTWCout(sp: iface, a: seq[slice], b: seq[slice], w: int, i: int, j: int)
  requires OUTW(w, i, j)
  ensures DTWC(sp, a, b, w, i, j) == INF
  trigger DTWC(sp, a, b, w, i, j)

# the matrix stores a band of min(2w+1, n) values per line
def STR(w: int, n: int): int := ite(2 * w + 1 < n, 2 * w + 1, n)
# LINE: i times the length of a line (kept abstract where the arithmetic does not matter)
spec LINE(i: int, w: int, n: int): int
axiom LINEdef(i: int, w: int, n: int)
  ensures LINE(i, w, n) == i * STR(w, n)
  trigger LINE(i, w, n)
def CELL(w: int, n: int, i: int, j: int): int := LINE(i, w, n) + ite(i > w, j - i + w, j)
lemma CELLone(sp: iface, a: seq[slice], b: seq[slice], w: int, i: int, j: int, k: int, l: int)
  use LINEdef
  requires 0 <= w && 0 <= i && 0 <= j < len(b) && 0 <= k && 0 <= l < len(b) && !OUTW(w, i, j) && !OUTW(w, k, l)
  requires CELL(w, len(b), i, j) == CELL(w, len(b), k, l)
  ensures i == k && j == l
  trigger DTWC(sp, a, b, w, i, j), DTWC(sp, a, b, w, k, l)

def WIN(w: int, m: int, n: int): int := ite(w == 0, ite(m > n, m, n), w)
def SHAPE(c: *dtw.CumCostMatrix): bool := len(c.s1) > 0 && len(c.s2) > 0 && c.window >= 0 && len(c.s1) - len(c.s2) <= c.window && len(c.s2) - len(c.s1) <= c.window && c.stride1 == STR(c.window, len(c.s2)) && len(c.values) == LINE(len(c.s1), c.window, len(c.s2))
def COSTOK(c: *dtw.CumCostMatrix): bool := forall i, j {DTWC(c.space, c.s1, c.s2, c.window, i, j)} :: 0 <= i < len(c.s1) && 0 <= j < len(c.s2) && !OUTW(c.window, i, j) ==> c.values[CELL(c.window, len(c.s2), i, j)] == DTWC(c.space, c.s1, c.s2, c.window, i, j)

func dtw.(*CumCostMatrix).ravel(c, i, j) (r)
  requires c != nil && 0 <= i < len(c.s1) && 0 <= j < len(c.s2) && c.window >= 0 && c.stride1 == STR(c.window, len(c.s2)) && !OUTW(c.window, i, j)
  ensures [cell] r == CELL(c.window, len(c.s2), i, j)
  ensures [def] DTWC(c.space, c.s1, c.s2, c.window, i, j) == DTWC(c.space, c.s1, c.s2, c.window, i, j)
  ensures [in] 0 <= r < LINE(len(c.s1), c.window, len(c.s2))
  use LINEdef

func dtw.(*CumCostMatrix).Get(c, i1, i2) (r)
  requires c != nil && SHAPE(c) && 0 <= i1 < len(c.s1) && 0 <= i2 < len(c.s2)
  ensures [outside] OUTW(c.window, i1, i2) ==> r == INF
  ensures [entry] !OUTW(c.window, i1, i2) ==> r == c.values[CELL(c.window, len(c.s2), i1, i2)]

func dtw.(*CumCostMatrix).computeCumCost(c) ()
  requires c != nil && c.space != nil && len(c.s1) > 0 && len(c.s2) > 0 && c.window >= 0
  requires len(c.s1) - len(c.s2) <= c.window && len(c.s2) - len(c.s1) <= c.window && c.stride1 == STR(c.window, len(c.s2))
  requires c.stride0 * c.stride1 == LINE(len(c.s1), c.window, len(c.s2))
  requires c.stride0 * c.stride1 >= 0
  modifies c.values
  ensures [values] len(c.values) == LINE(len(c.s1), c.window, len(c.s2))
  ensures [cost] COSTOK(c)
  use CELLone, DTWCout
  # the lines above the current one, and its beginning
  inv ($i: phi int) forall i, j {DTWC(c.space, c.s1, c.s2, c.window, i, j)} :: 0 <= i <= $i && 0 <= j < len(c.s2) && !OUTW(c.window, i, j) ==> c.values[CELL(c.window, len(c.s2), i, j)] == DTWC(c.space, c.s1, c.s2, c.window, i, j)
  inv ($i: int, $j: phi int) forall i, j {DTWC(c.space, c.s1, c.s2, c.window, i, j)} :: (0 <= i < $i && 0 <= j < len(c.s2) || i == $i && 0 <= j < $j) && !OUTW(c.window, i, j) ==> c.values[CELL(c.window, len(c.s2), i, j)] == DTWC(c.space, c.s1, c.s2, c.window, i, j)
  inv ($i: int, $j: phi int) $j - $i <= c.window + 1 && $i - $j <= c.window && 0 <= $j <= len(c.s2)

func dtw.(*CumCostMatrix).computePath(c) ()
  requires c != nil && SHAPE(c)
  modifies c.path
  inv fresh(c.path)

func dtw.NewCumCostMatrix(s1, s2, space, window) (r)
  requires space != nil && len(s1) > 0 && len(s2) > 0 && window >= 0
  requires window > 0 ==> len(s1) - len(s2) <= window && len(s2) - len(s1) <= window
  ensures [series] r.s1 == s1 && r.s2 == s2 && r.space == space && r.window == WIN(window, len(s1), len(s2))
  ensures [shape] SHAPE(r)
  ensures [cost] COSTOK(r)
  use LINEdef
  
# the accumulated cost is at most the cost of any warping path p, q from (0, 0) in the window (and it
# is reached, by following the predecessors of its definition)
rec PSUM(sp: iface, a: seq[slice], b: seq[slice], p: row[int], q: row[int], n: int): real on n :=
  ite(n < 0, 0.0, PSUM(sp, a, b, p, q, n - 1) + PDIST(sp, a[p[n]], b[q[n]]))
lemma DTWmin(sp: iface, a: seq[slice], b: seq[slice], w: int, p: row[int], q: row[int], n: int) induction n
  requires n >= 0 && p[0] == 0 && q[0] == 0
  requires forall k {p[k]} :: 0 <= k <= n ==> p[k] >= 0 && q[k] >= 0 && !OUTW(w, p[k], q[k])
  requires forall k {p[k]} :: 0 < k <= n ==> (p[k] - p[k - 1] == 0 || p[k] - p[k - 1] == 1) && (q[k] - q[k - 1] == 0 || q[k] - q[k - 1] == 1) && p[k] + q[k] > p[k - 1] + q[k - 1]
  ensures DTWC(sp, a, b, w, p[n], q[n]) <= PSUM(sp, a, b, p, q, n)
  trigger PSUM(sp, a, b, p, q, n), DTWC(sp, a, b, w, p[n], q[n])

func dtw.NewDTWWindow(s1, s2, space, window) (r)
  requires space != nil && len(s1) > 0 && len(s2) > 0 && window >= 0
  requires window > 0 ==> len(s1) - len(s2) <= window && len(s2) - len(s1) <= window
  ensures [series] r.s1 == s1 && r.s2 == s2 && r.space == space
  ensures [dist] r.dist == DTWC(space, s1, s2, WIN(window, len(s1), len(s2)), len(s1) - 1, len(s2) - 1)

func dtw.NewDTW(s1, s2, space) (r)
  requires space != nil && len(s1) > 0 && len(s2) > 0
  ensures [dist] r.dist == DTWC(space, s1, s2, ite(len(s1) > len(s2), len(s1), len(s2)), len(s1) - 1, len(s2) - 1)

func dtw.DTW.Dist(d) (r)
  ensures [dist] r == d.dist

# lengths differing by at most the window: nothing is resized
func dtw.Space.Dist(space, elemt1, elemt2) (sum)
  requires isseries(elemt1) && isseries(elemt2) && space.innerSpace != nil && space.window >= 0
  requires len(series(elemt1)) > 0 && len(series(elemt2)) > 0
  requires space.window > 0 ==> len(series(elemt1)) - len(series(elemt2)) <= space.window && len(series(elemt2)) - len(series(elemt1)) <= space.window
  ensures [dist] sum == DTWC(space.innerSpace, series(elemt1), series(elemt2), WIN(space.window, len(series(elemt1)), len(series(elemt2))), len(series(elemt1)) - 1, len(series(elemt2)) - 1)
func dtw.NewSpace(conf) (r)
  ensures [conf] r.window == conf.Window && r.innerSpace == conf.InnerSpace

property C09
  verify dtw.Space.Dist, dtw.NewSpace, dtw.(*CumCostMatrix).ravel, dtw.NewCumCostMatrix, dtw.(*CumCostMatrix).computeCumCost, dtw.(*CumCostMatrix).computePath, dtw.(*CumCostMatrix).Get, dtw.NewDTWWindow, dtw.NewDTW, dtw.DTW.Dist
  lemmas CELLone, DTWCout, DTWmin
