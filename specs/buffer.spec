# ---- data buffer (C06) ---------------------------------------------------------
# A fixed size buffer is a ring: AGE(d, p, n, a) is the element stored a pushes before the
# newest one, in the slots d of a ring of n slots whose next slot is p.
rec RING(p: int, n: int, a: int): int on n := ite(p - 1 - a >= 0, p - 1 - a, p - 1 - a + n)
def FIXED(b: iface): bool := typeis(b, *core.fixedSizeStrategy)
def INFINITE(b: iface): bool := typeis(b, *core.infiniteSizeStrategy)
# the ring is well formed: never more elements than slots, the next slot follows the newest element
def RINGOK(s: int, n: int, p: int): bool := 0 <= s <= n && 0 < n && 0 <= p <= n && (s < n ==> p == s)

dispatch core.bufferSizeStrategy: *core.fixedSizeStrategy, *core.infiniteSizeStrategy

def SIZE(b: iface): int := unbox(b, *core.fixedSizeStrategy).size
def POS(b: iface): int := unbox(b, *core.fixedSizeStrategy).position

func core.(*fixedSizeStrategy).push(s, data, elemt) (r)
  requires s != nil && RINGOK(len(data), s.size, s.position)
  modifies fields(s), array(data)
  ensures [size] s.size == old(s.size)
  ensures [ring] RINGOK(len(r), s.size, s.position)
  ensures [count] len(r) == ite(len(data) < s.size, len(data) + 1, len(data))
  ensures [newest] r[RING(s.position, s.size, 0)] == elemt
  ensures [older] forall a {RING(s.position, s.size, a)} :: 1 <= a < len(r) ==> r[RING(s.position, s.size, a)] == old(data[RING(s.position, s.size, a - 1)])
  ensures [storage] base(r) == base(data) || fresh(r)

func core.(*infiniteSizeStrategy).push(s, data, elemt) (r)
  modifies array(data)
  ensures [count] len(r) == len(data) + 1
  ensures [kept] forall i :: 0 <= i < len(data) ==> r[i] == old(data[i])
  ensures [newest] r[len(data)] == elemt
  ensures [storage] base(r) == base(data) || fresh(r)

# what NewDataBuffer establishes and every operation keeps
def BUFOK(b: *core.DataBuffer): bool := b.pipe != nil && !qclosed(b.pipe) && (FIXED(b.strategy) || INFINITE(b.strategy)) && (FIXED(b.strategy) ==> unbox(b.strategy, *core.fixedSizeStrategy) != nil && RINGOK(len(b.data), SIZE(b.strategy), POS(b.strategy)))

func core.NewDataBuffer(data, size) (r)
  ensures [type] typeis(r, *core.DataBuffer) && fresh(unbox(r, *core.DataBuffer))
  ensures [pipe] unbox(r, *core.DataBuffer).pipe != nil && fresh(unbox(r, *core.DataBuffer).pipe) && qlen(unbox(r, *core.DataBuffer).pipe) == 0 && !qclosed(unbox(r, *core.DataBuffer).pipe)
  ensures [own] isnil(unbox(r, *core.DataBuffer).data) || fresh(unbox(r, *core.DataBuffer).data)
  ensures [fixed] size > 0 ==> FIXED(unbox(r, *core.DataBuffer).strategy) && unbox(unbox(r, *core.DataBuffer).strategy, *core.fixedSizeStrategy) != nil && SIZE(unbox(r, *core.DataBuffer).strategy) == size && RINGOK(len(unbox(r, *core.DataBuffer).data), size, POS(unbox(r, *core.DataBuffer).strategy))
  ensures [infinite] size <= 0 ==> INFINITE(unbox(r, *core.DataBuffer).strategy)
  ensures [count] len(unbox(r, *core.DataBuffer).data) == ite(size > 0 && size < len(data), size, len(data))
  ensures [ages] size > 0 ==> forall a :: 0 <= a < len(unbox(r, *core.DataBuffer).data) ==> unbox(r, *core.DataBuffer).data[RING(POS(unbox(r, *core.DataBuffer).strategy), size, a)] == data[len(data) - 1 - a]
  ensures [all] size <= 0 ==> forall i :: 0 <= i < len(data) ==> unbox(r, *core.DataBuffer).data[i] == data[i]

func core.(*DataBuffer).Push(b, elmt, running) (err)
  requires b != nil && (FIXED(b.strategy) || INFINITE(b.strategy)) && b.pipe != nil && !qclosed(b.pipe)
  requires FIXED(b.strategy) ==> unbox(b.strategy, *core.fixedSizeStrategy) != nil && RINGOK(len(b.data), SIZE(b.strategy), POS(b.strategy))
  modifies b.data, chanof(b.pipe), fields(as(b.strategy, *core.fixedSizeStrategy)), array0(b.data)
  ensures [ok] isnil(err)
  ensures [staged] running ==> qlen(b.pipe) == old(qlen(b.pipe)) + 1 && q(b.pipe)[old(qlen(b.pipe))] == elmt && (forall i :: 0 <= i < old(qlen(b.pipe)) ==> q(b.pipe)[i] == old(q(b.pipe)[i]))
  ensures [invisible] running ==> base(b.data) == old(base(b.data)) && off(b.data) == old(off(b.data)) && len(b.data) == old(len(b.data)) && (forall i :: 0 <= i < len(b.data) ==> b.data[i] == old(b.data[i]))
  ensures [samering] running && FIXED(b.strategy) ==> SIZE(b.strategy) == old(SIZE(b.strategy)) && POS(b.strategy) == old(POS(b.strategy))
  ensures [nopipe] !running ==> qlen(b.pipe) == old(qlen(b.pipe)) && (forall i :: 0 <= i < qlen(b.pipe) ==> q(b.pipe)[i] == old(q(b.pipe)[i]))
  ensures [open] !qclosed(b.pipe)
  ensures [ring] FIXED(b.strategy) ==> RINGOK(len(b.data), SIZE(b.strategy), POS(b.strategy)) && SIZE(b.strategy) == old(SIZE(b.strategy))
  ensures [fcount] !running && FIXED(b.strategy) ==> len(b.data) == old(ite(len(b.data) < SIZE(b.strategy), len(b.data) + 1, len(b.data)))
  ensures [fnewest] !running && FIXED(b.strategy) ==> b.data[RING(POS(b.strategy), SIZE(b.strategy), 0)] == elmt
  ensures [folder] !running && FIXED(b.strategy) ==> forall a {RING(POS(b.strategy), SIZE(b.strategy), a)} :: 1 <= a < len(b.data) ==> b.data[RING(POS(b.strategy), SIZE(b.strategy), a)] == old(b.data[RING(POS(b.strategy), SIZE(b.strategy), a - 1)])
  ensures [icount] !running && INFINITE(b.strategy) ==> len(b.data) == old(len(b.data)) + 1
  ensures [ikept] !running && INFINITE(b.strategy) ==> forall i :: 0 <= i < old(len(b.data)) ==> b.data[i] == old(b.data[i])
  ensures [inewest] !running && INFINITE(b.strategy) ==> b.data[old(len(b.data))] == elmt
  ensures [storage] base(b.data) == old(base(b.data)) || fresh(b.data)

func core.(*DataBuffer).Data(b) (data)
  requires b != nil
  ensures [data] base(data) == base(b.data) && off(data) == off(b.data) && len(data) == len(b.data)

func core.(*DataBuffer).Apply(b) (err)
  requires b != nil && (FIXED(b.strategy) || INFINITE(b.strategy)) && b.pipe != nil && !qclosed(b.pipe)
  requires FIXED(b.strategy) ==> unbox(b.strategy, *core.fixedSizeStrategy) != nil && RINGOK(len(b.data), SIZE(b.strategy), POS(b.strategy))
  modifies b.data, chanof(b.pipe), fields(as(b.strategy, *core.fixedSizeStrategy)), array0(b.data)
  ensures [ok] isnil(err)
  ensures [drained] qlen(b.pipe) == 0 && !qclosed(b.pipe)
  ensures [ring] FIXED(b.strategy) ==> RINGOK(len(b.data), SIZE(b.strategy), POS(b.strategy)) && SIZE(b.strategy) == old(SIZE(b.strategy))
  ensures [fcount] FIXED(b.strategy) ==> len(b.data) == old(ite(len(b.data) + qlen(b.pipe) < SIZE(b.strategy), len(b.data) + qlen(b.pipe), SIZE(b.strategy)))
  ensures [fnew] FIXED(b.strategy) ==> forall a {RING(POS(b.strategy), SIZE(b.strategy), a)} :: 0 <= a < len(b.data) && a < old(qlen(b.pipe)) ==> b.data[RING(POS(b.strategy), SIZE(b.strategy), a)] == old(q(b.pipe)[qlen(b.pipe) - 1 - a])
  ensures [folder] FIXED(b.strategy) ==> forall a {RING(POS(b.strategy), SIZE(b.strategy), a)} :: old(qlen(b.pipe)) <= a < len(b.data) ==> b.data[RING(POS(b.strategy), SIZE(b.strategy), a)] == old(b.data[RING(POS(b.strategy), SIZE(b.strategy), a - qlen(b.pipe))])
  ensures [icount] INFINITE(b.strategy) ==> len(b.data) == old(len(b.data) + qlen(b.pipe))
  ensures [ikept] INFINITE(b.strategy) ==> forall i :: 0 <= i < old(len(b.data)) ==> b.data[i] == old(b.data[i])
  ensures [inew] INFINITE(b.strategy) ==> forall j :: 0 <= j < old(qlen(b.pipe)) ==> b.data[old(len(b.data)) + j] == old(q(b.pipe)[j])
  ensures [storage] base(b.data) == old(base(b.data)) || fresh(b.data)
  inv 0 <= qlen(b.pipe) && qlen(b.pipe) <= old(qlen(b.pipe)) && !qclosed(b.pipe)
  inv b.strategy == old(b.strategy) && b.pipe == old(b.pipe)
  inv base(b.data) == old(base(b.data)) || fresh(b.data)
  inv forall j :: 0 <= j < qlen(b.pipe) ==> q(b.pipe)[j] == old(q(b.pipe))[j + old(qlen(b.pipe)) - qlen(b.pipe)]
  inv INFINITE(b.strategy) ==> len(b.data) == old(len(b.data) + qlen(b.pipe)) - qlen(b.pipe)
  inv FIXED(b.strategy) ==> RINGOK(len(b.data), SIZE(b.strategy), POS(b.strategy)) && SIZE(b.strategy) == old(SIZE(b.strategy))
  inv FIXED(b.strategy) ==> len(b.data) == ite(old(len(b.data) + qlen(b.pipe)) - qlen(b.pipe) < SIZE(b.strategy), old(len(b.data) + qlen(b.pipe)) - qlen(b.pipe), SIZE(b.strategy))
  inv FIXED(b.strategy) ==> forall a {RING(POS(b.strategy), SIZE(b.strategy), a)} :: 0 <= a < len(b.data) && a < old(qlen(b.pipe)) - qlen(b.pipe) ==> b.data[RING(POS(b.strategy), SIZE(b.strategy), a)] == old(q(b.pipe))[old(qlen(b.pipe)) - qlen(b.pipe) - 1 - a]
  inv FIXED(b.strategy) ==> forall a {RING(POS(b.strategy), SIZE(b.strategy), a)} :: old(qlen(b.pipe)) - qlen(b.pipe) <= a < len(b.data) ==> b.data[RING(POS(b.strategy), SIZE(b.strategy), a)] == old(seq(b.data))[RING(old(POS(b.strategy)), old(SIZE(b.strategy)), a - (old(qlen(b.pipe)) - qlen(b.pipe)))]
  inv INFINITE(b.strategy) ==> forall i :: 0 <= i < old(len(b.data)) ==> b.data[i] == old(b.data[i])
  inv INFINITE(b.strategy) ==> forall j :: 0 <= j < old(qlen(b.pipe)) - qlen(b.pipe) ==> b.data[old(len(b.data)) + j] == old(q(b.pipe)[j])

property C06
  verify core.NewDataBuffer, core.(*DataBuffer).Push, core.(*DataBuffer).Data, core.(*DataBuffer).Apply, core.(*fixedSizeStrategy).push, core.(*infiniteSizeStrategy).push
