# ---- finishing conditions (C21) ----------------------------------------------
# FIN(f, m): what a (non-nil) condition answers for the state of a model. The conditions of
# the package are proved to answer by their documented rule; a condition of the user is
# only assumed to answer the same for the same state.
# The state of a model changes under the feet of its readers: the ghost epoch stands for the
# moment of observation; it advances whenever other goroutines may have run.
ghost epoch: int
spec FIN0(f: iface, m: iface, e: int): bool
spec ITERS0(m: iface, e: int): int
spec PUSHED0(m: iface, e: int): int
spec STATUSOF0(m: iface, e: int): string
spec ERROROF0(m: iface, e: int): iface
def FIN(f: iface, m: iface): bool := FIN0(f, m, g.epoch)
def ITERS(m: iface): int := ITERS0(m, g.epoch)
def PUSHED(m: iface): int := PUSHED0(m, g.epoch)
def STATUSOF(m: iface): string := STATUSOF0(m, g.epoch)
def ERROROF(m: iface): iface := ERROROF0(m, g.epoch)
def HOLDS(f: iface, m: iface): bool := !isnil(f) && FIN(f, m)

iface core.Finishing.IsFinished(f, m) (b)
  requires [nolocks C22] nolocks()
  ensures b == FIN(f, m)
  sets [C25 C29] g.done := b
  sets [C25] g.ev := g.epoch
  sets [C25] g.evd := 1
  flag noalloc yes

iface core.OCModel.Status(m) (s)
  ensures s.Value == STATUSOF(m) && s.Error == ERROROF(m)
  flag noalloc yes

iface core.OCModel.RuntimeFigures(m) (r)
  ensures r != nil
  ensures ite(dom(r, core.Iterations), r[core.Iterations], 0.0) == real(ITERS(m))
  ensures ite(dom(r, core.PushedData), r[core.PushedData], 0.0) == real(PUSHED(m))

func core.IsFinished(finishing, model) (b)
  ensures [nilnever C21] b == HOLDS(finishing, model)
  assumes [holds C25 C29] b == HOLDS(finishing, model)
  sets [C25 C29] g.done := b
  sets [C25] g.ev := g.epoch
  sets [C25] g.evd := 1
  flag locks yes

func core.AndFinishing.IsFinished(and, ocm) (cond)
  ensures [and C21] cond == (len(and.Finishings) > 0 && (forall i :: 0 <= i < len(and.Finishings) ==> HOLDS(and.Finishings[i], ocm)))
  inv ($i: phi int, $c: phi bool) forall j :: 0 <= j < $i ==> HOLDS(and.Finishings[j], ocm)
  inv ($i: phi int, $c: phi bool) $c == ($i > 0)

func core.OrFinishing.IsFinished(or, ocm) (cond)
  ensures [or C21] cond == (exists i :: 0 <= i < len(or.Finishings) && HOLDS(or.Finishings[i], ocm))
  inv ($i: phi int) forall j :: 0 <= j < $i ==> !HOLDS(or.Finishings[j], ocm)
  inv ($c: phi bool) !$c

func core.IterFinishing.IsFinished(i, ocm) (cond)
  requires !isnil(ocm)
  ensures [iter C21] cond == ((i.Iter > 0 || i.IterPerData > 0) && ITERS(ocm) >= i.Iter + PUSHED(ocm) * i.IterPerData)

func core.StatusFinishing.IsFinished(sf, ocm) (cond)
  requires !isnil(ocm)
  ensures [status C21] cond == ((sf.Error && !isnil(ERROROF(ocm))) || (exists i :: 0 <= i < len(sf.Status) && sf.Status[i] == STATUSOF(ocm)))
  inv ($i: phi int) forall j :: 0 <= j < $i ==> sf.Status[j] != STATUSOF(ocm)
  inv ($c: phi bool) !$c

func core.NewAndFinishing(finishings) (f)
  ensures [some] !isnil(f)
  ensures [and C21] typeis(f, core.AndFinishing) && unbox(f, core.AndFinishing).Finishings == finishings

func core.NewOrFinishing(finishings) (f)
  assumes [rule C25] len(finishings) == 2 ==> forall m: iface, e: int {FIN0(f, m, e)} :: FIN0(f, m, e) <==> (!isnil(finishings[0]) && FIN0(finishings[0], m, e)) || (!isnil(finishings[1]) && FIN0(finishings[1], m, e))
  ensures [some] !isnil(f)
  ensures [or C21] typeis(f, core.OrFinishing) && unbox(f, core.OrFinishing).Finishings == finishings

func core.NewIterFinishing(iter, iterPerData) (f)
  assumes [rule C25] forall m: iface, e: int {FIN0(boxed(f), m, e)} :: FIN0(boxed(f), m, e) <==> (iter > 0 || iterPerData > 0) && ITERS0(m, e) >= iter + PUSHED0(m, e) * iterPerData
  ensures [iter C21] f.Iter == iter && f.IterPerData == iterPerData

func core.NewStatusFinishing(error, status) (f)
  assumes [rule C29] forall m: iface, e: int {FIN0(boxed(f), m, e)} :: FIN0(boxed(f), m, e) <==> (error && !isnil(ERROROF0(m, e))) || (exists i :: 0 <= i < len(status) && status[i] == STATUSOF0(m, e))
  ensures [status C21] f.Error == error && f.Status == status

property C21
  verify core.IsFinished, core.AndFinishing.IsFinished, core.OrFinishing.IsFinished, core.IterFinishing.IsFinished, core.StatusFinishing.IsFinished
  verify core.NewAndFinishing, core.NewOrFinishing, core.NewIterFinishing, core.NewStatusFinishing
