# ---- alteration distributions (C30) --------------------------------------------------
spec LOGR(x: real): real
spec GAMMA(x: real): real
spec NDIM(n: ref): int
spec NCENTRED(n: ref): bool
extern math.Log(x) (r)
  ensures r == LOGR(x)
  flag noalloc yes
extern math.Gamma(x) (r)
  ensures r == GAMMA(x)
  flag noalloc yes
# the last draws of the normal vector and of the chi-squared variable
ghost nd: row[real]
ghost chi: real
extern distuv.ChiSquared.Rand(c) (x)
  modifies g.chi
  ensures x == g.chi && x > 0.0
extern distmv.(*Normal).Rand(n, x) (r)
  requires n != nil && isnil(x)
  modifies g.nd
  ensures fresh(r) && len(r) == NDIM(n) && (forall i :: 0 <= i < len(r) ==> r[i] == g.nd[i])
extern mat.NewDiagDense(n, data) (r)
  requires len(data) == n || isnil(data)
  ensures r != nil && UNITDIAG(r) == (forall i :: 0 <= i < n ==> data[i] == 1.0)
spec UNITDIAG(m: ref): bool
# a normal vector with the mean and covariance it was built with
extern distmv.NewNormal(mu, sigma, src) (n, ok)
  ensures n != nil && fresh(n) && NDIM(n) == len(mu) && NCENTRED(n) == ((forall i :: 0 <= i < len(mu) ==> mu[i] == 0.0) && UNITDIAG(unbox(sigma, *mat.DiagDense)))

func mcmc.MultivT.Sample(m, mu, time) (r)
  requires isvec(mu) && time >= 1
  requires m.normal != nil && NDIM(m.normal) == len(vec(mu)) && m.chi2 != nil && m.chi2.K > 0.0
  modifies g.nd, g.chi
  ensures [vector] isvec(r) && fresh(vec(r)) && len(vec(r)) == len(vec(mu))
  ensures [shape] forall i :: 0 <= i < len(vec(mu)) ==> vec(r)[i] == vec(mu)[i] + g.nd[i] * SQRT(m.chi2.K / g.chi) * (1.0 / SQRT(real(time * 20)))
  use SQRTdef
  inv ($i: phi int, $s: []real) forall j :: 0 <= j < $i ==> $s[j] == vec(mu)[j] + g.nd[j] * SQRT(m.chi2.K / g.chi) * (1.0 / SQRT(real(time * 20)))
  inv ($i: phi int, $s: []real) forall j :: $i <= j < len($s) ==> $s[j] == g.nd[j]

def PDF(gf: real, pw: real, dim: int, nu: real, time: int, sq: real): real :=
  gf - LOGR(math.Pi * (nu / SQRT(real(time * 20)))) * real(dim) / 2.0 + (0.0 - pw) * LOGR(1.0 + sq / (nu / SQRT(real(time * 20))))

func mcmc.MultivT.Pdf(m, mu, x, time) (r)
  requires isvec(mu) && isvec(x) && len(vec(mu)) == len(vec(x)) && time >= 1 && m.MultivTConf.Nu > 0.0
  ensures [formula] r == PDF(m.gammaFactor, m.power, m.MultivTConf.Dim, m.MultivTConf.Nu, time, SQD(row(vec(mu)), off(vec(mu)), row(vec(x)), off(vec(x)), len(vec(mu))))
  ensures [symmetric] r == PDF(m.gammaFactor, m.power, m.MultivTConf.Dim, m.MultivTConf.Nu, time, SQD(row(vec(x)), off(vec(x)), row(vec(mu)), off(vec(mu)), len(vec(mu))))
  use SQRTdef, SQDsym
  inv ($i: phi int, $s: phi real) $s == SQD(row(vec(mu)), off(vec(mu)), row(vec(x)), off(vec(x)), $i)

func mcmc.NewMultivT(conf) (m)
  requires conf.Dim >= 0 && conf.Nu >= 0.0
  ensures [nu] m.MultivTConf.Nu == ite(conf.Nu == 0.0, 3.0, conf.Nu) && m.MultivTConf.Dim == conf.Dim
  ensures [rgen] ite(conf.RGen == nil, fresh(m.MultivTConf.RGen), m.MultivTConf.RGen == conf.RGen)
  ensures [normal] m.normal != nil && NDIM(m.normal) == conf.Dim && NCENTRED(m.normal)
  ensures [chi2] m.chi2 != nil && m.chi2.K == m.MultivTConf.Nu
  ensures [power] m.power == (real(conf.Dim) + m.MultivTConf.Nu) / 2.0
  ensures [gamma] m.gammaFactor == LOGR(GAMMA(m.power) / GAMMA(m.MultivTConf.Nu / 2.0))
  inv ($i: phi int, $s: []real) forall j :: 0 <= j < $i ==> $s[j] == 1.0
  inv ($i: phi int, $s: []real) forall j :: 0 <= j < $i ==> $s[j] == 0.0

func mcmc.Dirac.Sample(d, mu, time) (r)
  ensures [mean] r == mu
func mcmc.Dirac.Pdf(d, x, mu, time) (r)
  ensures [constant] r == 1.0
func mcmc.NewDirac() (d)

property C30
  verify mcmc.MultivT.Sample, mcmc.MultivT.Pdf, mcmc.NewMultivT, mcmc.Dirac.Sample, mcmc.Dirac.Pdf
  lemmas SQDsym
