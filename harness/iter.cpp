// The arithmetic between the problem functions and the linear solver: iterates, slacks, dual updates, log-barrier function,
// residuals and their norms, on every small shape and with every single input entry varied in turn.  Oracle: the formulas.
#include "kfix.hpp"
#include "hiopLogBarProblem.hpp"
#include "hiopDualsUpdater.hpp"
using namespace kf;

static std::string bad;
#define require(ok, ...) do { if(!(ok) && bad.empty()) bad = __VA_ARGS__; } while(0)
static bool same(double a, double b, double size) { if(a == b) return true; if(!std::isfinite(a) || !std::isfinite(b)) return std::isnan(a) && std::isnan(b); return std::fabs(a-b) <= 1e-13*size + 1e-300; }
static void cmp(const char* w, const V& g, const V& e, const V& sz)
{ require(g.size() == e.size(), cat(w, " has size ", g.size())); for(size_t i = 0; i < g.size() && i < e.size(); i++) if(!same(g[i], e[i], sz.size() ? sz[i] : std::fabs(e[i]))) { require(false, cat(w, "[", i, "] is ", g[i], " instead of ", e[i])); return; } }
static void cmp1(const char* w, double g, double e, double sz) { if(!same(g, e, sz)) require(false, cat(w, " is ", g, " instead of ", e)); }
static void cmpf(const char* w, Full g, Full e) { auto a = parts(g), b = parts(e); for(int k = 0; k < 12; k++) cmp(cat(w, ".", pname(k)).c_str(), *a[k], *b[k], {}); }
static double inf(const V& v) { double r = 0; for(double x : v) r = std::max(r, std::fabs(x)); return r; }
static double one(const V& v) { double r = 0; for(double x : v) r += std::fabs(x); return r; }
static double dot(const V& a, const V& b) { double r = 0; for(size_t i = 0; i < a.size(); i++) r += a[i]*b[i]; return r; }

// everything the user's problem and the algorithm provide
struct In { Full it, dir; V c, d, grad, Jc, Jd; double mu, f; V xl, xu, dl, du, cr; };
static In base(const Shape& S, int b, const Fix& F)
{
  In r; r.it = full(S); r.dir = full(S); int cnt = 0; auto val = [&](int k) { cnt++; return b == 0 ? 0.375+0.25*((cnt*7+k*3) % 11)-1.25*((cnt+k) % 2) : (cnt*k % 3 ? -1. : 1.)*(0.0625*cnt+0.5*k+0.25); };
  auto q = parts(r.it), d = parts(r.dir);
  for(int k = 0; k < 12; k++) for(size_t i = 0; i < q[k]->size(); i++) { double v = val(k); (*q[k])[i] = k < 4 ? v : std::fabs(v)+0.125; (*d[k])[i] = val(k+1); }
  mask(S, r.it); mask(S, r.dir);
  for(int i = 0; i < S.me; i++) r.c.push_back(val(1)); for(int i = 0; i < S.mi; i++) r.d.push_back(val(2)); for(int i = 0; i < S.n; i++) r.grad.push_back(val(3));
  for(int i = 0; i < S.me*S.n; i++) r.Jc.push_back(val(4)); for(int i = 0; i < S.mi*S.n; i++) r.Jd.push_back(val(5));
  r.mu = b ? 1e-3 : 0.1; r.f = val(6); r.xl = get(&F.f->get_xl()); r.xu = get(&F.f->get_xu()); r.dl = get(&F.f->get_dl()); r.du = get(&F.f->get_du()); r.cr = get(&F.f->get_crhs());
  return r;
}
// all scalar inputs that may be varied; pos: keep the sign positive
struct Spot { double* p; bool pos; std::string name; };
static std::vector<Spot> spots(const Shape& S, In& a, bool slackpos)
{
  std::vector<Spot> r; auto q = parts(a.it), d = parts(a.dir);
  for(int k = 0; k < 12; k++) for(size_t i = 0; i < q[k]->size(); i++) if(has(S, k, i)) { r.push_back({&(*q[k])[i], slackpos && k >= 4, cat(pname(k), i)}); r.push_back({&(*d[k])[i], false, cat("dir ", pname(k), i)}); }
  auto add = [&](V& v, const char* n) { for(size_t i = 0; i < v.size(); i++) r.push_back({&v[i], false, cat(n, i)}); };
  add(a.c, "c"); add(a.d, "d"); add(a.grad, "grad"); add(a.Jc, "Jc"); add(a.Jd, "Jd"); add(a.cr, "crhs");
  for(int i = 0; i < S.n; i++) { if(S.px[i] & 1) r.push_back({&a.xl[i], false, cat("xl", i)}); if(S.px[i] & 2) r.push_back({&a.xu[i], false, cat("xu", i)}); }
  for(int i = 0; i < S.mi; i++) { if(S.pd[i] & 1) r.push_back({&a.dl[i], false, cat("dl", i)}); if(S.pd[i] & 2) r.push_back({&a.du[i], false, cat("du", i)}); }
  r.push_back({&a.mu, true, "mu"}); r.push_back({&a.f, false, "f"}); return r;
}
struct Env {
  Fix F; std::unique_ptr<hiopMatrix> Jc, Jd; std::unique_ptr<hiopVector> c, d, grad; hiopIterate it, dir, oth; hiopResidual res, res2; hiopLogBarProblem lb;
  Env(const Shape& S, const std::string& form, const nlp::Opts& o = {}) : F(S, form, o), Jc(F.f->alloc_Jac_c()), Jd(F.f->alloc_Jac_d()), c(F.f->alloc_dual_eq_vec()), d(F.f->alloc_dual_ineq_vec()), grad(F.f->alloc_primal_vec()),
    it(F.f), dir(F.f), oth(F.f), res(F.f), res2(F.f), lb(F.f) {}
  void load(In& a)
  {
    const Shape& S = F.S; kf::load(it, a.it); kf::load(dir, a.dir); put(c.get(), a.c); put(d.get(), a.d); put(grad.get(), a.grad); putJac(Jc.get(), a.Jc, S.me, S.n, F.ns); putJac(Jd.get(), a.Jd, S.mi, S.n, F.ns);
    auto w = [](const hiopVector& v, const V& x) { put(const_cast<hiopVector*>(&v), x); }; w(F.f->get_xl(), a.xl); w(F.f->get_xu(), a.xu); w(F.f->get_dl(), a.dl); w(F.f->get_du(), a.du); w(F.f->get_crhs(), a.cr);
  }
  void untouched(In& a, bool iter = true)
  { if(iter) cmpf("input iterate", save(it), a.it); cmpf("input direction", save(dir), a.dir); cmp("input c", get(c.get()), a.c, {}); cmp("input d", get(d.get()), a.d, {}); cmp("input grad", get(grad.get()), a.grad, {}); cmp("xl", get(&F.f->get_xl()), a.xl, {}); cmp("du", get(&F.f->get_du()), a.du, {}); }
};
static V damp(const I& p) { V r; for(int k : p) r.push_back(k == 1 ? 1. : k == 2 ? -1. : 0.); return r; }

// ---- residuals
struct RRef { Full r, z; double on, fn, cn, ob, cb, on1, ob1, fn1, cv; };
static RRef resref(const Shape& S, In& a, bool soc)
{
  RRef R; R.r = full(S); R.z = full(S); int n = S.n; V gx = damp(S.px), gd = damp(S.pd), n1(n), z1(n), n2(S.mi), z2(S.mi); const double kd = 1e-5;
  auto& r = R.r; auto& z = R.z; auto& t = a.it;
  auto add = [](double& s, double& b, double v) { s += v; b += std::fabs(v); };
  for(int i = 0; i < n; i++) {
    add(n1[i], z1[i], -a.grad[i]); for(int k = 0; k < S.me; k++) add(n1[i], z1[i], -a.Jc[k*n+i]*t.yc[k]); for(int k = 0; k < S.mi; k++) add(n1[i], z1[i], -a.Jd[k*n+i]*t.yd[k]);
    add(n1[i], z1[i], t.zl[i]); add(n1[i], z1[i], -t.zu[i]);
    r.x[i] = n1[i]-kd*a.mu*gx[i]; z.x[i] = z1[i]+kd*a.mu;
    if(S.px[i] & 1) { r.sxl[i] = t.x[i]-t.sxl[i]-a.xl[i]; z.sxl[i] = std::fabs(t.x[i])+std::fabs(t.sxl[i])+std::fabs(a.xl[i]); r.zl[i] = a.mu-t.sxl[i]*t.zl[i]; z.zl[i] = a.mu+std::fabs(t.sxl[i]*t.zl[i]); }
    if(S.px[i] & 2) { r.sxu[i] = a.xu[i]-t.x[i]-t.sxu[i]; z.sxu[i] = std::fabs(t.x[i])+std::fabs(t.sxu[i])+std::fabs(a.xu[i]); r.zu[i] = a.mu-t.sxu[i]*t.zu[i]; z.zu[i] = a.mu+std::fabs(t.sxu[i]*t.zu[i]); }
  }
  for(int k = 0; k < S.mi; k++) {
    n2[k] = t.yd[k]+t.vl[k]-t.vu[k]; z2[k] = std::fabs(t.yd[k])+std::fabs(t.vl[k])+std::fabs(t.vu[k]); r.d[k] = n2[k]-kd*a.mu*gd[k]; z.d[k] = z2[k]+kd*a.mu;
    r.yd[k] = soc ? a.d[k] : t.d[k]-a.d[k]; z.yd[k] = std::fabs(t.d[k])+std::fabs(a.d[k]);
    if(S.pd[k] & 1) { r.sdl[k] = t.d[k]-t.sdl[k]-a.dl[k]; z.sdl[k] = std::fabs(t.d[k])+std::fabs(t.sdl[k])+std::fabs(a.dl[k]); r.vl[k] = a.mu-t.sdl[k]*t.vl[k]; z.vl[k] = a.mu+std::fabs(t.sdl[k]*t.vl[k]); }
    if(S.pd[k] & 2) { r.sdu[k] = a.du[k]-t.d[k]-t.sdu[k]; z.sdu[k] = std::fabs(t.d[k])+std::fabs(t.sdu[k])+std::fabs(a.du[k]); r.vu[k] = a.mu-t.sdu[k]*t.vu[k]; z.vu[k] = a.mu+std::fabs(t.sdu[k]*t.vu[k]); }
  }
  R.cv = 0;
  for(int k = 0; k < S.me; k++) { r.yc[k] = soc ? a.c[k] : a.cr[k]-a.c[k]; z.yc[k] = std::fabs(a.cr[k])+std::fabs(a.c[k]); R.cv = std::max(R.cv, std::fabs(r.yc[k])); }
  for(int k = 0; k < S.mi; k++) { if(S.pd[k] & 1) R.cv = std::max(R.cv, a.dl[k]-a.d[k]); if(S.pd[k] & 2) R.cv = std::max(R.cv, a.d[k]-a.du[k]); }
  R.on = std::max(inf(n1), inf(n2)); R.on1 = one(n1)+one(n2); R.ob = std::max(inf(r.x), inf(r.d)); R.ob1 = one(r.x)+one(r.d);
  R.fn = std::max(inf(r.yc), inf(r.yd)); R.fn1 = one(r.yc)+one(r.yd); R.cn = R.cb = 0;
  for(int i = 0; i < n; i++) { R.cn = std::max({R.cn, std::fabs(t.sxl[i]*t.zl[i])*(S.px[i] & 1), std::fabs(t.sxu[i]*t.zu[i])*((S.px[i] & 2) != 0)}); R.cb = std::max({R.cb, std::fabs(r.zl[i]), std::fabs(r.zu[i])}); }
  for(int k = 0; k < S.mi; k++) { R.cn = std::max({R.cn, std::fabs(t.sdl[k]*t.vl[k])*(S.pd[k] & 1), std::fabs(t.sdu[k]*t.vu[k])*((S.pd[k] & 2) != 0)}); R.cb = std::max({R.cb, std::fabs(r.vl[k]), std::fabs(r.vu[k])}); }
  return R;
}
static void rcmp(const char* w, const Shape& S, hiopResidual& res, RRef& R, bool soc)
{
  Full g = save(res); auto a = parts(g), b = parts(R.r), z = parts(R.z); static const char* nm[] = {"rx","rd","ryc","ryd","rxl","rxu","rdl","rdu","rszl","rszu","rsvl","rsvu"};
  for(int k = 0; k < 12; k++) cmp(cat(w, " ", nm[k]).c_str(), *a[k], *b[k], *z[k]);
  double Z = 0; for(int k = 0; k < 12; k++) Z += one(*z[k]);
  cmp1("nrmInf_nlp_optim", res.get_nrmInf_nlp_optim(), R.on, Z); cmp1("nrmInf_bar_optim", res.get_nrmInf_bar_optim(), R.ob, Z); cmp1("nrmOne_nlp_optim", res.get_nrmOne_nlp_optim(), R.on1, Z); cmp1("nrmOne_bar_optim", res.get_nrmOne_bar_optim(), R.ob1, Z);
  cmp1("nrmInf_nlp_feasib", res.get_nrmInf_nlp_feasib(), R.fn, Z); cmp1("nrmInf_bar_feasib", res.get_nrmInf_bar_feasib(), R.fn, Z); cmp1("nrmOne_nlp_feasib", res.get_nrmOne_nlp_feasib(), R.fn1, Z); cmp1("nrmOne_bar_feasib", res.get_nrmOne_bar_feasib(), R.fn1, Z);
  cmp1("nrmInf_nlp_complem", res.get_nrmInf_nlp_complem(), R.cn, Z); cmp1("nrmInf_bar_complem", res.get_nrmInf_bar_complem(), R.cb, Z); cmp1("getInfeasInfNorm", res.getInfeasInfNorm(), R.fn, Z); cmp1("get_theta", res.get_theta(), R.fn1, Z);
  double o, f, c, v; res.getNlpErrors(o, f, c, v); cmp1("getNlpErrors optim", o, R.on, Z); cmp1("feas", f, R.fn, Z); cmp1("complem", c, R.cn, Z); if(!soc) cmp1("constraint violation", v, R.cv, Z);
  res.getBarrierErrors(o, f, c); cmp1("getBarrierErrors optim", o, R.ob, Z); cmp1("feas", f, R.fn, Z); cmp1("complem", c, R.cb, Z);
}
static void t_resid(Env& E, In& a)
{
  E.load(a); const Shape& S = E.F.S; E.lb.mu = a.mu; E.lb.iter = &E.it;
  E.res.update(E.it, a.f, *E.c, *E.d, *E.grad, *E.Jc, *E.Jd, E.lb); RRef R = resref(S, a, false); rcmp("update", S, E.res, R, false); E.untouched(a); trans();
  E.res2.copyFrom(E.res); rcmp("copyFrom", S, E.res2, R, false); trans();
  { double o, f, c, v1, v2; E.res.getNlpErrors(o, f, c, v1); E.res2.getNlpErrors(o, f, c, v2); cmp1("constraint violation after copyFrom", v2, v1, 0); }
  E.res2.update_soc(E.it, *E.c, *E.d, *E.grad, *E.Jc, *E.Jd, E.lb); RRef Q = resref(S, a, true); rcmp("update_soc", S, E.res2, Q, true); E.untouched(a); trans();
  double th = E.res2.compute_nlp_infeasib_onenorm(E.it, *E.c, *E.d); cmp1("compute_nlp_infeasib_onenorm", th, R.fn1, one(R.z.yc)+one(R.z.yd)); trans();
  cmp("ryc of compute_nlp_infeasib_onenorm", get(E.res2.get_ryc()), R.r.yc, R.z.yc); cmp("ryd", get(E.res2.get_ryd()), R.r.yd, R.z.yd); cmp("rxl", get(E.res2.get_rxl()), R.r.sxl, R.z.sxl); cmp("rxu", get(E.res2.get_rxu()), R.r.sxu, R.z.sxu); cmp("rdl", get(E.res2.get_rdl()), R.r.sdl, R.z.sdl); cmp("rdu", get(E.res2.get_rdu()), R.r.sdu, R.z.sdu);
}
// ---- log barrier
static void t_bar(Env& E, In& a)
{
  E.load(a); const Shape& S = E.F.S; auto& t = a.it; const double kd = 1e-5; auto ex = [&](int k, int i) { return has(S, k, i); };
  double lg = 0, lz = 0, dm = 0; V gx = a.grad, gd(S.mi, 0.), zx(S.n), zd(S.mi);
  for(int i = 0; i < S.n; i++) { zx[i] = std::fabs(gx[i]); if(ex(4, i)) { lg += std::log(t.sxl[i]); lz += std::fabs(std::log(t.sxl[i])); gx[i] -= a.mu/t.sxl[i]; zx[i] += a.mu/t.sxl[i]; if(!ex(5, i)) { dm += t.sxl[i]; gx[i] += kd*a.mu; } }
    if(ex(5, i)) { lg += std::log(t.sxu[i]); lz += std::fabs(std::log(t.sxu[i])); gx[i] += a.mu/t.sxu[i]; zx[i] += a.mu/t.sxu[i]; if(!ex(4, i)) { dm += t.sxu[i]; gx[i] -= kd*a.mu; } } }
  for(int i = 0; i < S.mi; i++) { if(ex(6, i)) { lg += std::log(t.sdl[i]); lz += std::fabs(std::log(t.sdl[i])); gd[i] -= a.mu/t.sdl[i]; zd[i] += a.mu/t.sdl[i]; if(!ex(7, i)) { dm += t.sdl[i]; gd[i] += kd*a.mu; } }
    if(ex(7, i)) { lg += std::log(t.sdu[i]); lz += std::fabs(std::log(t.sdu[i])); gd[i] += a.mu/t.sdu[i]; zd[i] += a.mu/t.sdu[i]; if(!ex(6, i)) { dm += t.sdu[i]; gd[i] -= kd*a.mu; } } }
  double f = a.f-a.mu*lg+kd*a.mu*dm, fz = std::fabs(a.f)+a.mu*lz+kd*a.mu*dm;
  cmp1("evalLogBarrier", E.it.evalLogBarrier(), lg, lz); cmp1("linearDampingTerm", E.it.linearDampingTerm(a.mu, kd), kd*a.mu*dm, kd*a.mu*dm); trans(2);
  E.lb.updateWithNlpInfo(E.it, a.mu, a.f, *E.c, *E.d, *E.grad, *E.Jc, *E.Jd); trans();
  cmp1("f_logbar", E.lb.f_logbar, f, fz); cmp("gradient of the barrier function (x)", get(E.lb._grad_x_logbar), gx, zx); cmp("gradient of the barrier function (d)", get(E.lb._grad_d_logbar), gd, zd);
  E.lb.updateWithNlpInfo_trial_funcOnly(E.it, a.f, *E.c, *E.d); cmp1("f_logbar_trial", E.lb.f_logbar_trial, f, fz); cmp1("f_logbar after the trial", E.lb.f_logbar, f, fz); trans();
  V dx = a.dir.x, dd = a.dir.d; double z = 0; for(int i = 0; i < S.n; i++) z += zx[i]*std::fabs(dx[i]); for(int i = 0; i < S.mi; i++) z += zd[i]*std::fabs(dd[i]);
  cmp1("directionalDerivative", E.lb.directionalDerivative(E.dir), dot(gx, dx)+dot(gd, dd), z); trans();
  V gx2 = a.grad, gd2 = a.d; V px = damp(S.px), pd = damp(S.pd); for(int i = 0; i < S.n; i++) gx2[i] += -2.*kd*a.mu*px[i]; for(int i = 0; i < S.mi; i++) gd2[i] += 3.*kd*a.mu*pd[i];
  std::unique_ptr<hiopVector> v(E.grad->new_copy()), w(E.d->new_copy()); E.lb.addNonLogBarTermsToGrad_x(-2., *v); E.lb.addNonLogBarTermsToGrad_d(3., *w); V sx(S.n), sd(S.mi); for(int i = 0; i < S.n; i++) sx[i] = std::fabs(a.grad[i])+a.mu; for(int i = 0; i < S.mi; i++) sd[i] = std::fabs(a.d[i])+a.mu;
  cmp("addNonLogBarTermsToGrad_x", get(v.get()), gx2, sx); cmp("addNonLogBarTermsToGrad_d", get(w.get()), gd2, sd); E.untouched(a); trans(2);
}
// ---- iterates
static double bndslack(double s, double b, double z, double mu)
{ double e = std::numeric_limits<double>::epsilon(), small = e*std::min(1., mu); if(s >= small) return s; double p = std::max(s, 0.); return std::min(std::max(mu/z, small), p+std::pow(e, 0.75)*std::max(1., std::fabs(b))); }
static void t_iter(Env& E, In& a)
{
  E.load(a); const Shape& S = E.F.S; auto& t = a.it; auto& d = a.dir;
  // copies are deep
  { std::unique_ptr<hiopIterate> c(E.it.new_copy()), e(E.it.alloc_clone()); cmpf("new_copy", save(*c), t); Full z = full(S), y = full(S, 3.); cmpf("alloc_clone", save(*e), z); e->copyFrom(*c); load(*c, y); cmpf("copyFrom", save(*e), t); cmpf("copied iterate", save(E.it), t); trans(3); }
  // fraction to the boundary
  for(double tau : {0.99, 0.5, 1.-1e-12}) {
    double ap = 1, ad = 1; for(int k = 4; k < 12; k++) { V& s = *parts(t)[k]; V& q = *parts(d)[k]; for(size_t i = 0; i < s.size(); i++) if(has(S, k, i) && q[i] < 0) { double& al = k < 8 ? ap : ad; al = std::min(al, -tau*s[i]/q[i]); } }
    double gp = -1, gd = -1; require(E.it.fractionToTheBdry(E.dir, tau, gp, gd), "fractionToTheBdry fails"); cmp1("primal fraction to the boundary", gp, ap, ap); cmp1("dual fraction to the boundary", gd, ad, ad); trans();
  }
  // steps
  for(auto al : {std::make_pair(1., 1.), std::make_pair(0.5, 0.125), std::make_pair(0., 1.), std::make_pair(1e-8, 0.)}) {
    Full junk = full(S, 7.), e = junk, z = full(S, 7.); mask(S, junk); load(E.oth, junk); e = junk; z = junk; E.oth.takeStep_primals(E.it, E.dir, al.first, al.second);
    auto st = [&](V& o, V& s, const V& x, const V& q, double f) { for(size_t i = 0; i < x.size(); i++) { o[i] = x[i]+f*q[i]; s[i] = std::fabs(x[i])+std::fabs(f*q[i]); } };
    st(e.x, z.x, t.x, d.x, al.first); st(e.d, z.d, t.d, d.d, al.first); auto chk = [&](const char* w) { Full g = save(E.oth); auto ga = parts(g), ea = parts(e), za = parts(z); for(int k = 0; k < 12; k++) cmp(cat(w, " ", pname(k)).c_str(), *ga[k], *ea[k], *za[k]); };
    chk("takeStep_primals"); E.oth.takeStep_duals(E.it, E.dir, al.first, al.second);
    st(e.yc, z.yc, t.yc, d.yc, al.first); st(e.yd, z.yd, t.yd, d.yd, al.first); st(e.zl, z.zl, t.zl, d.zl, al.second); st(e.zu, z.zu, t.zu, d.zu, al.second); st(e.vl, z.vl, t.vl, d.vl, al.second); st(e.vu, z.vu, t.vu, d.vu, al.second);
    chk("takeStep_duals"); trans(2); E.untouched(a);
  }
  // norms
  double nb = one(t.zl)+one(t.zu)+one(t.vl)+one(t.vu), ne = one(t.yc)+one(t.yd); double q1 = -1, q2 = -1; E.it.normOneOfDuals(q1, q2);
  cmp1("normOneOfBoundDuals", E.it.normOneOfBoundDuals(), nb, nb); cmp1("normOneOfEqualityDuals", E.it.normOneOfEqualityDuals(), nb+ne, nb+ne); cmp1("normOneOfDuals eq", q1, ne, ne); cmp1("normOneOfDuals bnd", q2, nb, nb); trans(3);
  // duals pulled towards mu/slack
  for(double ks : {1e10, 10., 1.}) {
    E.oth.copyFrom(E.it); E.oth.adjustDuals_primalLogHessian(a.mu, ks); Full e = t; for(int k = 8; k < 12; k++) { V& z = *parts(e)[k]; V& s = *parts(t)[k-4]; for(size_t i = 0; i < z.size(); i++) if(has(S, k, i)) { double c = a.mu/s[i]; z[i] = std::max(std::min(z[i], c*ks), c/ks); } }
    Full g = save(E.oth); auto ga = parts(g), ea = parts(e); for(int k = 0; k < 12; k++) cmp(cat("adjustDuals_primalLogHessian ", pname(k)).c_str(), *ga[k], *ea[k], {}); trans();
  }
  // slacks
  auto sl = [&](Full& e) { for(int i = 0; i < S.n; i++) { e.sxl[i] = has(S, 4, i) ? t.x[i]-a.xl[i] : 0; e.sxu[i] = has(S, 5, i) ? a.xu[i]-t.x[i] : 0; } for(int i = 0; i < S.mi; i++) { e.sdl[i] = has(S, 6, i) ? t.d[i]-a.dl[i] : 0; e.sdu[i] = has(S, 7, i) ? a.du[i]-t.d[i] : 0; } };
  { Full j = t; for(auto* v : {&j.sxl, &j.sxu, &j.sdl, &j.sdu}) for(double& x : *v) x = 5.5; load(E.oth, j); E.oth.determineSlacks(); Full e = t; sl(e); cmpf("determineSlacks", save(E.oth), e); trans(); }
  { Full j = t; load(E.oth, j); size_type n = E.oth.compute_safe_slacks(E.it, a.mu); Full e = t; sl(e); int ne = 0; const V* b[] = {&a.xl, &a.xu, &a.dl, &a.du}; bool pos = true;
    for(int k = 4; k < 8; k++) { V& s = *parts(e)[k]; V& z = *parts(t)[k+4]; for(size_t i = 0; i < s.size(); i++) if(has(S, k, i)) { double o = s[i]; ne += o < std::numeric_limits<double>::epsilon()*std::min(1., a.mu); s[i] = bndslack(o, (*b[k-4])[i], z[i], a.mu); pos = pos && s[i] > 0; } }
    Full g = save(E.oth); auto ga = parts(g), ea = parts(e); for(int k = 0; k < 12; k++) cmp(cat("compute_safe_slacks ", pname(k)).c_str(), *ga[k], *ea[k], {}); require((int)n == ne, cat("compute_safe_slacks counts ", n, " adjusted slacks instead of ", ne)); require(pos, "reference slack not positive");
    for(int k = 4; k < 8; k++) for(size_t i = 0; i < ga[k]->size(); i++) if(has(S, k, i)) require((*ga[k])[i] > 0, cat("slack ", pname(k), i, " is ", (*ga[k])[i], " after compute_safe_slacks")); trans(); }
  // duals from slacks; constants; pattern
  { E.oth.copyFrom(E.it); E.oth.determineDualsBounds_d(a.mu); Full e = t; for(int i = 0; i < S.mi; i++) { e.vl[i] = has(S, 10, i) ? a.mu/t.sdl[i] : 0; e.vu[i] = has(S, 11, i) ? a.mu/t.sdu[i] : 0; } cmpf("determineDualsBounds_d", save(E.oth), e);
    E.oth.setBoundsDualsToConstant(2.5); for(int k = 8; k < 12; k++) { V& z = *parts(e)[k]; for(size_t i = 0; i < z.size(); i++) z[i] = has(S, k, i) ? 2.5 : 0; } cmpf("setBoundsDualsToConstant", save(E.oth), e);
    E.oth.setEqualityDualsToConstant(-1.5); e.yc = V(S.me, -1.5); e.yd = V(S.mi, -1.5); cmpf("setEqualityDualsToConstant", save(E.oth), e); trans(3);
    Full j = full(S, 9.); load(E.oth, j); E.oth.selectPattern(); mask(S, j); cmpf("selectPattern", save(E.oth), j); trans(); }
  // projection of the primals inside their own bounds
  for(auto k12 : {std::make_pair(1e-2, 1e-2), std::make_pair(1e-8, 0.49)}) {
    bool okb = true; for(int i = 0; i < S.n; i++) okb = okb && (S.px[i] != 3 || a.xl[i] < a.xu[i]-1e-9); for(int i = 0; i < S.mi; i++) okb = okb && (S.pd[i] != 3 || a.dl[i] < a.du[i]-1e-9); if(!okb) break;
    E.oth.copyFrom(E.it); E.oth.projectPrimalsXIntoBounds(k12.first, k12.second); E.oth.projectPrimalsDIntoBounds(k12.first, k12.second); Full e = t;
    auto pr = [&](double x, bool l, double lo, bool u, double up) { double pl = k12.first*std::max(1., std::fabs(lo)), pu = k12.first*std::max(1., std::fabs(up)); if(l && u) { pl = std::min(pl, k12.second*(up-lo)); pu = std::min(pu, k12.second*(up-lo)); } if(l && x < lo+pl) return lo+pl; if(u && x > up-pu) return up-pu; return x; };
    for(int i = 0; i < S.n; i++) e.x[i] = pr(t.x[i], S.px[i] & 1, a.xl[i], S.px[i] & 2, a.xu[i]); for(int i = 0; i < S.mi; i++) e.d[i] = pr(t.d[i], S.pd[i] & 1, a.dl[i], S.pd[i] & 2, a.du[i]);
    cmpf("projectPrimals", save(E.oth), e); trans(2);
  }
  E.untouched(a);
}
// ---- constraint duals
// stationarity of the least-squares problem; false if the reference says the matrix is singular
static void lsq(const Shape& S, In& a, const Full& g, const char* w)
{
  int n = S.n; V r1(n), z1(n), r2(S.mi), z2(S.mi); auto add = [](double& s, double& z, double v) { s += v; z += std::fabs(v); };
  for(int i = 0; i < n; i++) { add(r1[i], z1[i], a.grad[i]); add(r1[i], z1[i], -g.zl[i]); add(r1[i], z1[i], g.zu[i]); for(int k = 0; k < S.me; k++) add(r1[i], z1[i], a.Jc[k*n+i]*g.yc[k]); for(int k = 0; k < S.mi; k++) add(r1[i], z1[i], a.Jd[k*n+i]*g.yd[k]); }
  for(int k = 0; k < S.mi; k++) { add(r2[k], z2[k], -g.yd[k]); add(r2[k], z2[k], -g.vl[k]); add(r2[k], z2[k], g.vu[k]); }
  for(int k = 0; k < S.me; k++) { double s = 0, z = 0; for(int i = 0; i < n; i++) { s += a.Jc[k*n+i]*r1[i]; z += std::fabs(a.Jc[k*n+i])*z1[i]; } require(std::fabs(s) <= 1e-9*(z+1e-12), cat(w, ": equality multipliers do not minimize the dual infeasibility (gradient ", s, ")")); }
  for(int k = 0; k < S.mi; k++) { double s = -r2[k], z = z2[k]; for(int i = 0; i < n; i++) { s += a.Jd[k*n+i]*r1[i]; z += std::fabs(a.Jd[k*n+i])*z1[i]; } require(std::fabs(s) <= 1e-9*(z+1e-12), cat(w, ": inequality multipliers do not minimize the dual infeasibility (gradient ", s, ")")); }
}
static void t_dual(Env& E, In& a, double inimax, double tol)
{
  E.load(a); const Shape& S = E.F.S; int n = S.n, m = S.me+S.mi; auto& t = a.it;
  // reference matrix of the normal equations and its conditioning
  V M(m*m, 0.); auto row = [&](int k) { return k < S.me ? &a.Jc[k*n] : &a.Jd[(k-S.me)*n]; }; for(int i = 0; i < m; i++) for(int j = 0; j < m; j++) { for(int l = 0; l < n; l++) M[i*m+j] += row(i)[l]*row(j)[l]; if(i == j && i >= S.me) M[i*m+j] += 1; }
  V e = m ? eig(M, m) : V(); double lo = 1e300, hi = 0; for(double v : e) { lo = std::min(lo, v); hi = std::max(hi, v); } bool sing = m && lo < 1e-13*hi, good = !m || lo > 1e-7*hi;
  hiopDualsLsqUpdateLinsysRedDenseSymPD L(E.F.f);
  auto others = [&](Full g, Full w, const char* nm) { g.yc = w.yc; g.yd = w.yd; cmpf(nm, g, w); };
  { E.oth.copyFrom(E.it); bool ok = L.go(E.oth, *E.grad, *E.Jc, *E.Jd); Full g = save(E.oth); if(good) { require(ok, "least-squares multipliers: fails"); if(ok) lsq(S, a, g, "least-squares multipliers"); } others(g, t, "least-squares multipliers: other parts"); trans(); if(!ok) cmpf("failed least-squares update", g, t); }
  { E.oth.copyFrom(E.it); bool ok = L.compute_initial_duals_eq(E.oth, *E.grad, *E.Jc, *E.Jd); Full g = save(E.oth); bool zero = inf(g.yc) == 0 && inf(g.yd) == 0; others(g, t, "initial multipliers: other parts"); trans();
    if(!ok) require(zero, "initial multipliers: not zero after a failure");
    require(!(inf(g.yc) > inimax) && !(inf(g.yd) > inimax), "initial multipliers: larger than duals_lsq_ini_max");
    for(double v : g.yc) require(std::isfinite(v), "initial multipliers not finite"); for(double v : g.yd) require(std::isfinite(v), "initial multipliers not finite");
    if(good) { require(ok, "initial multipliers: fails"); E.dir.copyFrom(E.it); hiopIterate& f = E.dir; L.go(f, *E.grad, *E.Jc, *E.Jd); Full w = save(f); double big = std::max(inf(w.yc), inf(w.yd)); load(E.dir, a.dir);
      if(big > inimax*(1+1e-9)) require(zero, "initial multipliers: too large ones are used"); else if(big < inimax*(1-1e-9)) lsq(S, a, g, "initial multipliers"); } }
  // update along the step, pulled towards the barrier, then least squares if feasible enough
  for(int kind = 0; kind < 2; kind++) for(double inf_ : {0.5*tol, 2*tol}) {
    if(kind == 1 && (E.F.ns || dynamic_cast<hiopNlpDenseConstraints*>(E.F.f) == nullptr)) continue;
    Full o = t; load(E.oth, o); double ks = 10.; hiopDualsNewtonLinearUpdate N(E.F.f); hiopDualsUpdater& U = kind ? (hiopDualsUpdater&)L : N;
    bool ok = U.go(E.it, E.oth, a.f, *E.c, *E.d, *E.grad, *E.Jc, *E.Jd, E.dir, 0.5, 0.25, a.mu, ks, inf_); trans();
    Full w = t; auto& d = a.dir; for(int k = 2; k < 12; k++) { if(k >= 4 && k < 8) continue; V& z = *parts(w)[k]; V& q = *parts(d)[k]; for(size_t i = 0; i < z.size(); i++) { z[i] += (k < 4 ? 0.5 : 0.25)*q[i]; if(k >= 8 && has(S, k, i)) { double c = a.mu/(*parts(o)[k-4])[i]; z[i] = std::max(std::min(z[i], c*ks), c/ks); } } }
    Full g = save(E.oth); auto near2 = [&](Full x, Full y, const char* nm) { auto p = parts(x), q = parts(y); for(int k = 0; k < 12; k++) { V sz; for(double v : *q[k]) sz.push_back(10+std::fabs(v)*10); cmp(cat(nm, " ", pname(k)).c_str(), *p[k], *q[k], sz); } };
    if(kind == 0 || inf_ > tol) { require(ok, "dual update fails"); near2(g, w, kind ? "dual update without least squares" : "linear dual update"); }
    else { Full g2 = g; g2.yc = w.yc; g2.yd = w.yd; near2(g2, w, "dual update: bound multipliers"); if(good) { require(ok, "least-squares dual update fails"); if(ok) lsq(S, a, g, "least-squares dual update"); } }
  }
  E.untouched(a); (void)sing;
}
// slack safeguarding over a full alphabet, for one-variable problems and pairs
static void t_slacks(Env& E, In a)
{
  const Shape& S = E.F.S; const double e = std::numeric_limits<double>::epsilon();
  for(double mu : {10., 1., 1e-1, 1e-4, 1e-9, 1e-15}) for(double b : {0., 1., -3., 1e6, 1e-8}) for(double z : {1e-12, 1e-3, 1., 1e8, 1e17}) for(double s : {-1., -1e-10, -1e-17, 0., 1e-300, 1e-24, 0.5*e*std::min(1., mu), e*std::min(1., mu), 2*e*std::min(1., mu), 1e-12, 1e-3}) {
    In c = a; c.mu = mu;
    for(int i = 0; i < S.n; i++) { if(S.px[i] & 1) { c.xl[i] = b; c.it.x[i] = b+s; c.it.zl[i] = z; if(S.px[i] & 2) c.xu[i] = b+5; } else if(S.px[i] & 2) { c.xu[i] = b; c.it.x[i] = b-s; c.it.zu[i] = z; } if(i == 0 && S.n > 1) c.it.x[i] = S.px[i] & 1 ? b+1 : b-1; }
    for(int i = 0; i < S.mi; i++) { if(S.pd[i] & 1) { c.dl[i] = b; c.it.d[i] = b+s; c.it.vl[i] = z; if(S.pd[i] & 2) c.du[i] = b+5; } else if(S.pd[i] & 2) { c.du[i] = b; c.it.d[i] = b-s; c.it.vu[i] = z; } }
    t_iter(E, c); trace(); state(hd(hd(hd(hd(S.n*100+S.px[0]*10+(S.mi ? S.pd[0] : 0), mu), b), z), s)); if(!bad.empty()) { fail("iterate", cat(S.str(), " mu ", mu, " bound ", b, " dual ", z, " slack ", s, ": ", bad)); bad.clear(); return; }
  }
}
static void all(const Shape& S, const std::string& form, bool pairs)
{
  if(!mc::begin(cat("iter:", form, ":", S.str(), pairs ? ":pairs" : ""))) return;
  Env E(S, form); Env E2(S, form, {{"duals_lsq_ini_max", "0.5"}, {"recalc_lsq_duals_tol", "0.25"}});
  double inimax = E.F.f->options->GetNumeric("duals_lsq_ini_max"), tol = E.F.f->options->GetNumeric("recalc_lsq_duals_tol");
  auto go = [&](In& a, In& p, const std::string& what) {   // a: any values, p: positive slacks and duals
    t_resid(E, a); t_bar(E, p); t_iter(E, p); t_dual(E, p, inimax, tol); t_dual(E2, p, 0.5, 0.25); trace(4); uint64_t h = hs(hs(0, S.str()+form), what); state(h);
    if(!bad.empty()) { fail("arithmetic", cat(form, " ", S.str(), " ", what, ": ", bad)); bad.clear(); return false; } return true; };
  for(int b = 0; b < 2; b++) {
    In a = base(S, b, E.F), p = base(S, b, E.F); if(!go(a, p, cat("base ", b))) return;
    auto sa = spots(S, a, false), sp = spots(S, p, true);
    for(size_t i = 0; i < sa.size(); i++) for(double v : {0., 7.25, -3e3, 1e-7}) {
      double o = *sa[i].p; double w = sa[i].name == "mu" ? std::fabs(v)+1e-9 : v, q = sp[i].pos ? std::fabs(v)+1e-9 : v; *sa[i].p = w; *sp[i].p = q;
      bool ok = go(a, p, cat("base ", b, " ", sa[i].name, "=", v));
      if(ok && pairs) for(size_t j = 0; j < i && ok; j++) for(double u : {0., -11.5}) { double o2 = *sa[j].p; *sa[j].p = sa[j].name == "mu" ? std::fabs(u)+1e-9 : u; *sp[j].p = sp[j].pos ? std::fabs(u)+1e-9 : u; ok = go(a, p, cat("base ", b, " ", sa[i].name, "=", v, " ", sa[j].name, "=", u)); *sa[j].p = o2; *sp[j].p = o2; if(!ok) break; }
      *sa[i].p = o; *sp[i].p = o; if(!ok) return;
    }
    if(b == 0) sample(cat(form, " ", S.str(), ": base data and ", sa.size(), " inputs x 4 values"));
  }
}
void mc_body()
{
  auto forms = [&](int n) { std::vector<std::string> f = {"dense"};
#ifdef HIOP_SPARSE
    if(n) return std::vector<std::string>{"sparse"};
#endif
    for(int k = 0; k <= n; k++) f.push_back(cat("mds", k)); return f; };
  auto shapes = [&](int n, bool uni, const std::function<void(const Shape&)>& f) {
    for(int me = 0; me <= 2; me++) for(int mi = 0; mi <= 2; mi++) {
      std::vector<int> p(uni ? 1 : n, 0), q(uni ? (mi > 0) : mi, 0);
      do { do { Shape S; S.n = n; S.me = me; S.mi = mi; for(int i = 0; i < n; i++) S.px.push_back(uni ? (p[0]+i) % 4 : p[i]); for(int i = 0; i < mi; i++) S.pd.push_back(uni ? 1+(q[0]+i) % 3 : q[i]+1); f(S); } while(advance(q, std::vector<int>(q.size(), 3))); } while(advance(p, std::vector<int>(p.size(), 4)));
    } };
  for(int n = 1; n <= (opt.thorough ? 4 : 3); n++) shapes(n, n > 2, [&](const Shape& S) { for(auto& f : forms(n)) all(S, f, opt.thorough && S.n+S.me+S.mi <= 3 && (f == "dense" || f == "mds1")); });
  for(int n = 1; n <= 2; n++) for(int pat = 1; pat < 4; pat++) for(int mi = 0; mi <= 1; mi++) for(int pd = 1; pd < (mi ? 4 : 2); pd++) {
    Shape S; S.n = n; S.me = 1; S.mi = mi; S.px = I(n, pat); S.pd = I(mi, pd); if(!mc::begin(cat("slacks:", S.str()))) continue; Env E(S, "dense"); t_slacks(E, base(S, 0, E.F));
  }
}
