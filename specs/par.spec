# ---- parallel runner (C02) ----------------------------------------------------
# ghost trace of the calls of the process function: by rank, number of calls and last range
ghost pcnt: row[int]
ghost pst: row[int]
ghost pen: row[int]
# goroutines started, goroutines known to have finished, calls made by the current goroutine
ghost spawn: int
ghost join: int
ghost mine: int
# boundaries of the pieces at a call of the runner: piece r is [pb[r], pb[r+1])
ghost pb: row[int]

functype core.Par:0(f, start, end, rank)
  modifies g.pcnt, g.pst, g.pen, g.mine
  ensures g.pcnt == store(old(g.pcnt), rank, old(g.pcnt)[rank] + 1)
  ensures g.pst == store(old(g.pst), rank, start)
  ensures g.pen == store(old(g.pen), rank, end)
  ensures g.mine == old(g.mine) + 1

# the value of the wait group stands for its counter
extern sync.(*WaitGroup).Add(w, n)
  requires w != nil
  modifies *w
  ensures *w == old(*w) + n
  flag noalloc yes
extern sync.(*WaitGroup).Done(w)
  requires w != nil
  requires [afterwork] g.mine == 1
  modifies *w
  ensures *w == old(*w) - 1
  flag noalloc yes
extern sync.(*WaitGroup).Wait(w)
  requires w != nil
  requires [balanced] *w == 0
  modifies g.join
  ensures g.join == g.spawn
  flag noalloc yes

func core.Par(process, size, degree)
  requires process != nil
  requires degree >= 1
  requires size >= 0
  requires [start C02] g.join == g.spawn
  modifies g.pcnt, g.pst, g.pen, g.mine, g.spawn, g.join
  ensures [once C02] forall r :: 0 <= r < degree ==> g.pcnt[r] == old(g.pcnt)[r] + 1
  ensures [noother C02] forall r :: r < 0 || degree <= r ==> g.pcnt[r] == old(g.pcnt)[r]
  ensures [bounds C02] forall r :: 0 <= r < degree ==> 0 <= g.pst[r] && g.pst[r] <= g.pen[r] && g.pen[r] <= size
  ensures [first C02] g.pst[0] == 0
  ensures [contiguous C02] forall r :: 0 <= r < degree - 1 ==> g.pst[r + 1] == g.pen[r]
  ensures [last C02] g.pen[degree - 1] == size
  ensures [joined C02] g.join == g.spawn
  inv ($i: phi int, $s: phi int) $s == $i * (size / degree) + ite($i > degree - size % degree, $i - (degree - size % degree), 0)
  inv ($i: phi int, $o: phi int) $o == size / degree + ite($i > degree - size % degree, 1, 0)
  inv ($i: phi int) forall r :: 0 <= r < $i ==> g.pcnt[r] == old(g.pcnt)[r] + 1
  inv ($i: phi int) forall r :: r < 0 || $i <= r ==> g.pcnt[r] == old(g.pcnt)[r]
  inv ($i: phi int) forall r :: 0 <= r < $i ==> 0 <= g.pst[r] && g.pst[r] <= g.pen[r] && g.pen[r] <= size
  inv ($i: phi int) forall r :: 0 <= r < $i - 1 ==> g.pst[r + 1] == g.pen[r]
  inv ($i: phi int) $i > 0 ==> g.pst[0] == 0
  inv ($i: phi int, $s: phi int) $i > 0 ==> g.pen[$i - 1] == $s
  inv ($i: phi int, $s: phi int) $i == 0 ==> $s == 0
  inv ($i: phi int, $w: *sync.WaitGroup) *$w == degree - $i
  inv ($w: *sync.WaitGroup) *$w == degree
  inv g.mine == old(g.mine)
  inv g.join == old(g.join)

# contiguous ranges from 0 to size cover every index, each in exactly one range
lemma COVER(st: row[int], en: row[int], i: int, n: int) induction n
  requires n >= 1 && st[0] == 0 && (forall r :: 0 <= r < n - 1 ==> st[r + 1] == en[r]) && (forall r :: 0 <= r < n ==> st[r] <= en[r])
  requires 0 <= i < en[n - 1]
  ensures exists r :: 0 <= r < n && st[r] <= i && i < en[r]
lemma MONO(st: row[int], en: row[int], a: int, n: int) induction n
  requires 0 <= a < n && (forall r :: 0 <= r < n ==> st[r + 1] == en[r]) && (forall r :: 0 <= r <= n ==> st[r] <= en[r])
  ensures en[a] <= st[n]
  trigger en[a], st[n]
lemma DISJOINT(st: row[int], en: row[int], i: int, a: int, b: int, n: int)
  use MONO
  requires (forall r :: 0 <= r < n - 1 ==> st[r + 1] == en[r]) && (forall r :: 0 <= r < n ==> st[r] <= en[r])
  requires 0 <= a < b && b < n
  ensures !(st[a] <= i && i < en[a] && st[b] <= i && i < en[b])

property C02
  verify core.Par
  lemmas COVER, DISJOINT
