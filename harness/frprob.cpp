// The restoration problem built by hiopFRProbDense / hiopFRProbMDS / hiopFRProbSparse at an arbitrary iterate of the interior-point method:
// every function of its interface, in every short order of calls, against the definition (Waechter & Biegler, section 3.3).
#include "kfix.hpp"
#include "hiopFRProb.hpp"
#include "hiopLogBarProblem.hpp"
using namespace kf;

static std::string bad;
#define require(ok, ...) do { if(!(ok) && bad.empty()) bad = __VA_ARGS__; } while(0)
static bool close_(double a, double e, double size, double rel = 1e-12) { return a == e || std::fabs(a-e) <= rel*size+1e-300; }
static void cmp(const std::string& w, const V& g, const V& e, const V& z, double rel = 1e-12) { for(size_t i = 0; i < e.size(); i++) if(!close_(g[i], e[i], z.empty() ? std::fabs(e[i]) : z[i], rel)) { require(false, cat(w, "[", i, "] is ", g[i], " instead of ", e[i])); return; } }

template<class B, class N> struct Probe : B {
  Probe(N* n) : B(n) { if(!this->it_curr) this->reInitializeNlpObjects(); }
  void place(Full& it, double mu)
  {
    load(*this->it_curr, it); this->_mu = mu; this->logbar->mu = mu; this->logbar->iter = this->it_curr;
    if(!this->evalNlp_noHess(*this->it_curr, this->_f_nlp, *this->_c, *this->_d, *this->_grad_f, *this->_Jac_c, *this->_Jac_d)) abort();
    this->logbar->updateWithNlpInfo(*this->it_curr, mu, this->_f_nlp, *this->_c, *this->_d, *this->_grad_f, *this->_Jac_c, *this->_Jac_d);
    this->resid->update(*this->it_curr, this->_f_nlp, *this->_c, *this->_d, *this->_grad_f, *this->_Jac_c, *this->_Jac_d, *this->logbar);
    if(!this->evalNlp_HessOnly(*this->it_curr, *this->_Hess_Lagr)) abort();
    this->filter.clear();
  }
  hiopFilter& flt() { return this->filter; }
};
typedef Probe<hiopAlgFilterIPMQuasiNewton, hiopNlpDenseConstraints> PD; typedef Probe<hiopAlgFilterIPMNewton, hiopNlpFormulation> PM;

struct Pt { V x, pe, ne, pi, ni, lam, s; double mu; int iter; };   // a point of the restoration problem
struct Env {
  Fix F; std::unique_ptr<PD> d; std::unique_ptr<PM> m; std::unique_ptr<hiopFRProbDense> fd; std::unique_ptr<hiopFRProbMDS> fm; std::unique_ptr<hiopFRProbSparse> fs; int n, me, mi, ns, N, M; bool mds, sp, second; double kappa;   // second: has second derivatives
  Env(const Shape& S, const std::string& form) : F(S, form, {}, {}, false, form == "sparse" && S.px[0] == 2), n(S.n), me(S.me), mi(S.mi), ns(F.ns), N(S.n+2*S.me+2*S.mi), M(S.me+S.mi), mds(form.compare(0, 3, "mds") == 0), sp(form == "sparse"), second(form != "dense")
  {
    nlp::Model& Q = F.M; auto hole = [&](int i) { return form == "sparse" && S.px[0] == 2 && i % 2 == 0; };   // derivatives that are not in the pattern
    for(int i = 0; i < n; i++) { Q.Q[i*n+i] = hole(i) ? 0 : 2+i; Q.g[i] = 1-2*i; }
    for(int k = 0; k < Q.m; k++) { for(int i = 0; i < n; i++) Q.A[k][i] = ((k*3+i*5) % 7)*0.5-1; Q.B[k].assign(n*n, 0.); for(int i = 0; i < n; i++) Q.B[k][i*n+i] = hole(i) ? 0 : ((k+2*i) % 3)-0.5; }
    for(int i = mds ? ns : 0; i+1 < n; i++) for(int k = 0; k < Q.m; k++) Q.B[k][i*n+i+1] = Q.B[k][(i+1)*n+i] = 0.25*(k+1);
    if(second) m.reset(new PM(F.f)); else d.reset(new PD((hiopNlpDenseConstraints*)F.f)); kappa = F.f->options->GetNumeric("kappa_resto");
  }
  hiopAlgFilterIPMBase& alg() { return second ? (hiopAlgFilterIPMBase&)*m : (hiopAlgFilterIPMBase&)*d; }
  hiopFilter& flt() { return second ? m->flt() : d->flt(); }
  hiopInterfaceBase& fr() { return sp ? (hiopInterfaceBase&)*fs : mds ? (hiopInterfaceBase&)*fm : (hiopInterfaceBase&)*fd; }
  void place(Full& it, double mu) { fd.reset(); fm.reset(); fs.reset(); if(sp) { m->place(it, mu); fs.reset(new hiopFRProbSparse(*m)); } else if(mds) { m->place(it, mu); fm.reset(new hiopFRProbMDS(*m)); } else { d->place(it, mu); fd.reset(new hiopFRProbDense(*d)); } }
  // index of variable i of block b (x pe ne pi ni) in the restoration problem
  int at(int b, int i) const
  {
    int off[5] = {0, 0, me, 2*me, 2*me+mi};
    if(!mds) return b ? n+off[b]+i : i;
    if(b) return ns+off[b]+i;
    return i < ns ? i : i+2*me+2*mi;
  }
  V pack(const V& x, const V& pe, const V& ne, const V& pi, const V& ni) const
  { V r(N); for(int i = 0; i < n; i++) r[at(0, i)] = x[i]; for(int k = 0; k < me; k++) { r[at(1, k)] = pe[k]; r[at(2, k)] = ne[k]; } for(int k = 0; k < mi; k++) { r[at(3, k)] = pi[k]; r[at(4, k)] = ni[k]; } return r; }
  V pack(const Pt& p) const { return pack(p.x, p.pe, p.ne, p.pi, p.ni); }
};
static void eq33(double r, double mu, double rho, double p, double n, double size, const std::string& w)
{
  // p-n equals the residual, and minimizes rho(p+n)-mu(ln p+ln n) along that line: mu/p+mu/n = 2 rho
  if(!(p > 0 && n > 0)) { require(false, cat(w, ": p ", p, ", n ", n, " not positive")); return; }
  require(close_(p-n, r, size+p+n, 1e-13), cat(w, ": p-n is ", p-n, " but the residual is ", r, " (p ", p, ", n ", n, ")"));
  double q = mu/(2*rho), big = std::fabs(r)+q; double a = q-r/2, nn = a+std::sqrt(a*a+q*r), pp = r+nn; require(close_(n, nn, big, 1e-12) && close_(p, pp, big, 1e-12), cat(w, ": (p,n) is (", p, ",", n, ") instead of (", pp, ",", nn, ")"));
}
// what the restoration problem should answer
struct Ref {
  Env& E; Full it; double mu0, mu, zeta, rho = 1000, ninf; V dr, c0, d0; double fbase = 0;
  Ref(Env& E_, const Full& t, double m) : E(E_), it(t), mu0(m)
  {
    ninf = 0; for(int k = 0; k < E.me; k++) { c0.push_back(E.F.M.c(k, it.x.data())); ninf = std::max(ninf, std::fabs(c0[k]-E.F.M.cl[k])); }
    for(int k = 0; k < E.mi; k++) { d0.push_back(E.F.M.c(E.me+k, it.x.data())); ninf = std::max(ninf, std::fabs(d0[k]-it.d[k])); }
    mu = std::max(m, ninf); zeta = std::sqrt(mu); for(int i = 0; i < E.n; i++) dr.push_back(it.x[i] == 0 ? 1. : std::min(1., 1/std::fabs(it.x[i])));
  }
  double f(const Pt& p, double& z) { double s = 0; z = 0; for(auto* v : {&p.pe, &p.ne, &p.pi, &p.ni}) for(double a : *v) { s += rho*a; z += rho*std::fabs(a); } for(int i = 0; i < E.n; i++) { double t = dr[i]*(p.x[i]-it.x[i]); s += 0.5*zeta*t*t; z += rho*std::fabs(p.x[i])+zeta*t*t; } return s; }
  V g(const Pt& p) { V x(E.n); for(int i = 0; i < E.n; i++) x[i] = zeta*dr[i]*dr[i]*(p.x[i]-it.x[i]); return E.pack(x, V(E.me, rho), V(E.me, rho), V(E.mi, rho), V(E.mi, rho)); }
  V c(const Pt& p, V& z) { V r(E.M); z = V(E.M); for(int k = 0; k < E.M; k++) { double a = k < E.me ? p.pe[k] : p.pi[k-E.me], b = k < E.me ? p.ne[k] : p.ni[k-E.me]; r[k] = E.F.M.c(k, p.x.data())-a+b; z[k] = 1+std::fabs(a)+std::fabs(b); for(double v : p.x) z[k] += 9*(std::fabs(v)+v*v); } return r; }
  V J(const Pt& p) { V r(E.M*E.N, 0.); for(int k = 0; k < E.M; k++) { for(int i = 0; i < E.n; i++) r[k*E.N+E.at(0, i)] = E.F.M.dc(k, i, p.x.data()); int b = k < E.me ? 1 : 3, q = k < E.me ? k : k-E.me; r[k*E.N+E.at(b, q)] = -1; r[k*E.N+E.at(b+1, q)] = 1; } return r; }
  V H(const Pt& p) { V r(E.N*E.N, 0.); for(int i = 0; i < E.n; i++) for(int j = 0; j < E.n; j++) { double s = i == j ? zeta*dr[i]*dr[i] : 0.; for(int k = 0; k < E.M; k++) s += p.lam[k]*E.F.M.ddc(k, i, j); r[E.at(0, i)*E.N+E.at(0, j)] = s; } return r; }
  // should the restoration stop at this iterate?  2: too close to call
  int stop(const Pt& p, const std::vector<std::pair<double, double>>& filter, double& theta, double& phi)
  {
    double inf = 0; theta = 0; for(int k = 0; k < E.M; k++) { double r = std::fabs(E.F.M.c(k, p.x.data())-(k < E.me ? E.F.M.cl[k] : p.s[k-E.me])); inf = std::max(inf, r); theta += r; }
    // barrier function of the base problem
    double lg = 0, dm = 0, mu_b = mu0; const double kd = 1e-5; auto one = [&](double sl, bool alone) { lg += std::log(sl); if(alone) dm += sl; };
    auto& Q = E.F.M; const Shape& S = E.F.S; bool safe = true;
    for(int i = 0; i < E.n; i++) { if(S.px[i] & 1) { double s = p.x[i]-Q.xl[i]; if(s < 1e-3) safe = false; one(s, S.px[i] == 1); } if(S.px[i] & 2) { double s = Q.xu[i]-p.x[i]; if(s < 1e-3) safe = false; one(s, S.px[i] == 2); } }
    for(int k = 0; k < E.mi; k++) { if(S.pd[k] & 1) { double s = p.s[k]-Q.cl[E.me+k]; if(s < 1e-3) safe = false; one(s, S.pd[k] == 1); } if(S.pd[k] & 2) { double s = Q.cu[E.me+k]-p.s[k]; if(s < 1e-3) safe = false; one(s, S.pd[k] == 2); } }
    phi = fbase-mu_b*lg+kd*mu_b*dm; if(p.iter == 0) return 0;
    double lim = E.kappa*ninf; if(close_(inf, lim, inf+lim, 1e-11) && inf > 0) return 2; if(inf > lim) return 0; if(!safe) return 2;
    for(auto& e : filter) if(theta >= e.first && phi >= e.second) return 0;
    return 1;
  }
};
enum Op { O_vars, O_cons, O_start, O_f, O_g, O_c, O_J, O_H, O_it, O_force, NOP };
static const char* oname(int o) { static const char* n[] = {"vars", "cons", "start", "f", "grad", "cons-eval", "jac", "hess", "iterate", "force"}; return n[o]; }
static const double U = -6.5e77;
static V full_jac(Env& E, const V& x, bool& ok)
{
  V r(E.M*E.N, 0.);
  auto put = [&](int z, const std::vector<index_type>& ir, const std::vector<index_type>& jc, const V& v, int cols) { for(int k = 0; k < z; k++) { if(ir[k] < 0 || ir[k] >= E.M || jc[k] < 0 || jc[k] >= cols) { require(false, cat("Jacobian triplet ", k, " is at (", ir[k], ",", jc[k], ")")); return false; } r[ir[k]*E.N+jc[k]] += v[k]; } return true; };
  if(E.sp) {   // the pattern and the values in separate calls, as the formulation asks for them
    int a, je, ji, ss; E.fs->get_sparse_blocks_info(a, je, ji, ss); int z = je+ji; std::vector<index_type> ir(z+1, -7), jc(z+1, -7); V v(z+1, U);
    ok = E.fs->eval_Jac_cons(E.N, E.M, x.data(), true, z, ir.data(), jc.data(), nullptr) && E.fs->eval_Jac_cons(E.N, E.M, x.data(), true, z, nullptr, nullptr, v.data()); put(z, ir, jc, v, E.N); return r;
  }
  if(!E.mds) { V J(E.M*E.N, U); ok = E.fd->eval_Jac_cons(E.N, E.M, x.data(), true, J.data()); return J; }
  int a, b, je, ji, ss, sd; E.fm->get_sparse_dense_blocks_info(a, b, je, ji, ss, sd); int z = je+ji; std::vector<index_type> ir(z+1, -7), jc(z+1, -7); V v(z+1, U), de(E.M*b+1, U); ok = E.fm->eval_Jac_cons(E.N, E.M, x.data(), true, a, b, z, ir.data(), jc.data(), v.data(), de.data());
  if(!put(z, ir, jc, v, a)) return r;
  for(int k = 0; k < E.M; k++) for(int j = 0; j < b; j++) r[k*E.N+a+j] = de[k*b+j];
  return r;
}
static V full_hess(Env& E, const V& x, const V& lam, bool& ok)
{
  V r(E.N*E.N, 0.); int a, b, je, ji, ss, sd;
  auto put = [&](int z, const std::vector<index_type>& ir, const std::vector<index_type>& jc, const V& v, int cols) { for(int k = 0; k < z; k++) { if(ir[k] < 0 || jc[k] < ir[k] || jc[k] >= cols) { require(false, cat("Hessian triplet ", k, " is at (", ir[k], ",", jc[k], ")")); return false; } r[ir[k]*E.N+jc[k]] += v[k]; if(ir[k] != jc[k]) r[jc[k]*E.N+ir[k]] += v[k]; } return true; };
  if(E.sp) {
    E.fs->get_sparse_blocks_info(a, je, ji, ss); std::vector<index_type> ir(ss+1, -7), jc(ss+1, -7); V v(ss+1, U);
    ok = E.fs->eval_Hess_Lagr(E.N, E.M, x.data(), true, 1., lam.data(), true, ss, ir.data(), jc.data(), nullptr) && E.fs->eval_Hess_Lagr(E.N, E.M, x.data(), true, 1., lam.data(), true, ss, nullptr, nullptr, v.data()); put(ss, ir, jc, v, E.N); return r;
  }
  E.fm->get_sparse_dense_blocks_info(a, b, je, ji, ss, sd); std::vector<index_type> ir(ss+1, -7), jc(ss+1, -7); V v(ss+1, U), de(b*b+1, U); size_type z = 0;
  ok = E.fm->eval_Hess_Lagr(E.N, E.M, x.data(), true, 1., lam.data(), true, a, b, ss, ir.data(), jc.data(), v.data(), de.data(), z, nullptr, nullptr, nullptr);
  if(!put(ss, ir, jc, v, a)) return r;
  for(int i = 0; i < b; i++) for(int j = i; j < b; j++) r[(a+i)*E.N+a+j] = r[(a+j)*E.N+a+i] = de[i*b+j];
  return r;
}
// executes one call and compares its answer.  Returns true when the restoration was told to stop.
static bool step(Env& E, Ref& R, int op, const Pt& p, const std::vector<std::pair<double, double>>& filter)
{
  V x = E.pack(p), keep = x; hiopInterfaceBase& I = E.fr(); const double INF = 1e20; trans(); auto& Q = E.F.M; bool stopped = false;
  switch(op) {
  case O_vars: {
    size_type n = -1, m = -1; require(I.get_prob_sizes(n, m) && n == E.N && m == E.M, cat("get_prob_sizes gives ", n, ",", m));
    V l(E.N, U), u(E.N, U); std::vector<hiopInterfaceBase::NonlinearityType> t(E.N, (hiopInterfaceBase::NonlinearityType)77); require(I.get_vars_info(E.N, l.data(), u.data(), t.data()), "get_vars_info fails");
    cmp("lower bound", l, E.pack(Q.xl, V(E.me, 0.), V(E.me, 0.), V(E.mi, 0.), V(E.mi, 0.)), {}); cmp("upper bound", u, E.pack(Q.xu, V(E.me, INF), V(E.me, INF), V(E.mi, INF), V(E.mi, INF)), {});
    for(int i = 0; i < E.N; i++) require(t[i] >= 0 && t[i] <= 2, cat("type of variable ", i, " is not set")); break; }
  case O_cons: {
    V l(E.M, U), u(E.M, U); std::vector<hiopInterfaceBase::NonlinearityType> t(E.M, (hiopInterfaceBase::NonlinearityType)77); require(I.get_cons_info(E.M, l.data(), u.data(), t.data()), "get_cons_info fails");
    cmp("lower bound of the constraints", l, Q.cl, {}); cmp("upper bound of the constraints", u, Q.cu, {}); for(int i = 0; i < E.M; i++) require(t[i] >= 0 && t[i] <= 2, cat("type of constraint ", i, " is not set"));
    if(E.mds) { int a, b, je, ji, ss, sd; require(E.fm->get_sparse_dense_blocks_info(a, b, je, ji, ss, sd) && a == E.ns+2*E.me+2*E.mi && b == E.n-E.ns && je == E.me*E.ns+2*E.me && ji == E.mi*E.ns+2*E.mi && ss == E.ns && sd == 0, "wrong block sizes"); }
    if(E.sp) { int a, je, ji, ss; require(E.fs->get_sparse_blocks_info(a, je, ji, ss) && a == E.N && je == E.me*E.n+2*E.me && ji == E.mi*E.n+2*E.mi && ss == E.n*(E.n+1)/2, "wrong numbers of nonzeros"); } break; }
  case O_start: {
    V x0(E.N, U), zl(E.N, U), zu(E.N, U), lam(E.M, U), s(E.mi, U), vl(E.mi, U), vu(E.mi, U); require(I.get_warmstart_point(E.N, E.M, x0.data(), zl.data(), zu.data(), lam.data(), s.data(), vl.data(), vu.data()), "get_warmstart_point fails");
    for(int i = 0; i < E.n; i++) { require(x0[E.at(0, i)] == R.it.x[i], cat("x0[", i, "]")); require(zl[E.at(0, i)] == std::min(R.rho, R.it.zl[i]) && zu[E.at(0, i)] == std::min(R.rho, R.it.zu[i]), cat("starting bound duals of x[", i, "]: ", zl[E.at(0, i)], ", ", zu[E.at(0, i)])); }
    for(int k = 0; k < E.M; k++) { bool eq = k < E.me; int q = eq ? k : k-E.me, b = eq ? 1 : 3; double r = eq ? R.c0[q]-Q.cl[q] : R.d0[q]-R.it.d[q], pp = x0[E.at(b, q)], nn = x0[E.at(b+1, q)], size = (eq ? std::fabs(R.c0[q])+std::fabs(Q.cl[q]) : std::fabs(R.d0[q])+std::fabs(R.it.d[q]))*1e-1;
      eq33(r, R.mu, R.rho, pp, nn, size, cat("start, constraint ", k)); for(int o = 0; o < 2; o++) { double v = x0[E.at(b+o, q)]; require(close_(zl[E.at(b+o, q)], R.mu/v, R.mu/v), "starting dual of p/n"); require(zu[E.at(b+o, q)] == 0, "starting upper dual of p/n"); } require(lam[k] == 0, "starting lambda"); }
    require(s == R.it.d, "starting slack"); for(int k = 0; k < E.mi; k++) require(vl[k] == std::min(R.rho, R.it.vl[k]) && vu[k] == std::min(R.rho, R.it.vu[k]), cat("starting slack duals ", k)); break; }
  case O_f: { double f = U, z; require(I.eval_f(E.N, x.data(), true, f), "eval_f fails"); double e = R.f(p, z); require(close_(f, e, z), cat("objective is ", f, " instead of ", e)); R.fbase = Q.f(p.x.data()); break; }
  case O_g: { V g(E.N, U); require(I.eval_grad_f(E.N, x.data(), true, g.data()), "eval_grad_f fails"); V e = R.g(p), z = e; for(int i = 0; i < E.n; i++) z[E.at(0, i)] = R.zeta*R.dr[i]*R.dr[i]*(std::fabs(p.x[i])+std::fabs(R.it.x[i])); cmp("gradient", g, e, z); break; }
  case O_c: { V c(E.M, U), z; require(I.eval_cons(E.N, E.M, x.data(), true, c.data()), "eval_cons fails"); V e = R.c(p, z); cmp("constraints", c, e, z); break; }
  case O_J: { bool ok = false; V J = full_jac(E, x, ok); require(ok, "eval_Jac_cons fails"); V e = R.J(p), z(e.size(), 1.); for(double v : p.x) for(double& t : z) t += 3*std::fabs(v); cmp("Jacobian", J, e, z); break; }
  case O_H: { if(!E.second) break; bool ok = false; V H = full_hess(E, x, p.lam, ok); require(ok, "eval_Hess_Lagr fails"); V e = R.H(p), z(e.size(), R.zeta); for(double v : p.lam) for(double& t : z) t += 3*std::fabs(v); cmp("Hessian", H, e, z); break; }
  case O_it: {
    double th, phi; E.flt().clear(); for(auto& e : filter) E.flt().add(e.first, e.second); V du(E.N, 0.), g(E.M, 0.);
    int want = R.stop(p, filter, th, phi); bool go = I.iterate_callback(p.iter, 1., 2., E.N, x.data(), du.data(), du.data(), E.mi, p.s.data(), E.M, g.data(), g.data(), 0.5, 0.25, 0.75, p.mu, 1., 1., 1);
    if(want != 2) require(go == !want, cat("iterate_callback ", go ? "continues" : "stops", " although the infeasibility is ", th, " and the barrier function ", phi, "; largest residual at the start ", R.ninf));
    count(want == 2 ? "undecided" : want ? "stops" : "continues");
    if(!go) { stopped = true; V sx = get(E.sp ? &E.fs->get_fr_sol_x() : E.mds ? &E.fm->get_fr_sol_x() : &E.fd->get_fr_sol_x()), sd = get(E.sp ? &E.fs->get_fr_sol_d() : E.mds ? &E.fm->get_fr_sol_d() : &E.fd->get_fr_sol_d()); require(sx == p.x && sd == p.s, "the point handed back is not the one of this iterate"); }
    else { R.mu = p.mu; R.zeta = std::sqrt(p.mu); }
    break; }
  case O_force: {
    // the slacks are those of the last iterate; p and n are chosen anew for the given x
    V y = x; require(I.force_update_x(E.N, y.data()), "force_update_x fails");
    for(int i = 0; i < E.n; i++) require(y[E.at(0, i)] == p.x[i], cat("force_update_x changes x[", i, "]"));
    for(int k = 0; k < E.M; k++) { bool eq = k < E.me; int q = eq ? k : k-E.me, b = eq ? 1 : 3; double v = Q.c(k, p.x.data()), t = eq ? Q.cl[q] : p.s[q]; double z = 1; for(double w : p.x) z += 9*(std::fabs(w)+w*w); eq33(v-t, R.mu, R.rho, y[E.at(b, q)], y[E.at(b+1, q)], 10*(z+std::fabs(t)), cat("force_update_x, constraint ", k)); }
    keep = x; break; }
  }
  require(x == keep, "the point of the restoration problem is modified"); return stopped;
}
static Full baseit(const Shape& S, int b)
{
  Full r = full(S); int cnt = 0; auto val = [&](int k) { cnt++; return b == 0 ? 0.375+0.25*((cnt*7+k*3) % 11)-1.25*((cnt+k) % 2) : (cnt*k % 3 ? -1. : 1.)*(0.0625*cnt+0.5*k+0.25); };
  auto q = parts(r); for(int k = 0; k < 12; k++) for(size_t i = 0; i < q[k]->size(); i++) { double v = val(k); (*q[k])[i] = k < 4 ? v : (std::fabs(v)+0.125)*(k >= 8 && i == 0 && b ? 3000 : 1); }
  for(int i = 0; i < S.n; i++) if(b == 1) r.x[i] *= 4;
  mask(S, r); return r;
}
static Pt basept(Env& E, int b)
{
  Pt p; int c = 0; auto v = [&] { c++; return b ? 0.75-0.5*((c*5) % 7) : 0.25+0.125*c; };
  for(int i = 0; i < E.n; i++) p.x.push_back(v()); for(auto* q : {&p.pe, &p.ne}) for(int k = 0; k < E.me; k++) q->push_back(std::fabs(v())+0.01); for(auto* q : {&p.pi, &p.ni}) for(int k = 0; k < E.mi; k++) q->push_back(std::fabs(v())+0.01);
  for(int k = 0; k < E.M; k++) p.lam.push_back(v()); for(int k = 0; k < E.mi; k++) p.s.push_back(b ? E.F.M.c(E.me+k, p.x.data())+0.125*(k+1) : v()); p.mu = b ? 0.25 : 1e-3; p.iter = b ? 3 : 1; return p;
}
static bool report(Env& E, const std::string& what) { if(bad.empty()) return false; fail("restoration", cat(E.sp ? "sparse" : E.mds ? cat("mds", E.ns) : "dense", " ", E.F.S.str(), " ", what, ": ", bad)); bad.clear(); return true; }

// every entry of the iterate the problem is built at, and of the point it is evaluated at, takes special values
static void values(const Shape& S, const std::string& form)
{
  if(!mc::begin(cat("values:", form, ":", S.str()))) return;
  Env E(S, form);
  for(int b = 0; b < 2; b++) {
    Full it = baseit(S, b); Pt p = basept(E, b); double mu = b ? 1e-4 : 20.;
    struct Spot { double* p; bool pos; std::string n; }; std::vector<Spot> sp; auto q = parts(it);
    for(int k : {0, 1, 8, 9, 10, 11}) for(size_t i = 0; i < q[k]->size(); i++) if(has(S, k, i)) sp.push_back({&(*q[k])[i], k > 1, cat(pname(k), i)});
    auto add = [&](V& v, const char* n, bool pos) { for(size_t i = 0; i < v.size(); i++) sp.push_back({&v[i], pos, cat(n, i)}); };
    add(p.x, "x", false); add(p.pe, "pe", true); add(p.ne, "ne", true); add(p.pi, "pi", true); add(p.ni, "ni", true); add(p.lam, "lambda", false); add(p.s, "s", false); sp.push_back({&mu, true, "mu"}); sp.push_back({&p.mu, true, "new mu"});
    sp.push_back({nullptr, false, "base"});
    for(auto& s : sp) for(double v : {0., 1e-9, 1., -2.5, 6e2, 5e-4}) {
      double o = s.p ? *s.p : 0; if(s.p) *s.p = s.pos ? std::fabs(v)+(v == 0 ? 1e-12 : 0) : v; std::string w = cat("base ", b, " ", s.n, "=", v);
      E.place(it, mu); Ref R(E, it, mu); for(int op : {O_vars, O_cons, O_start, O_f, O_g, O_c, O_J, O_H, O_it, O_f, O_g, O_H, O_force, O_start}) { if(op == O_it && p.iter == 0) continue; if(op == O_start && R.mu < 1e-10) continue; if(op == O_force && R.mu < 1e-6) continue; if(step(E, R, op, p, {{1e9, -1e20}, {0., -1e9}})) require(false, "stops although the filter forbids it"); if(!bad.empty()) { bad = cat(oname(op), ": ", bad); break; } }
      state(hs(hs(hs(1, S.str()), form), w)); trace(); bool r = report(E, w); if(s.p) *s.p = o; if(r) return; if(!s.p) break;
    }
  }
}
// every sequence of calls up to a length, at two points
static void orders(const Shape& S, const std::string& form, int len)
{
  if(!mc::begin(cat("orders:", form, ":", S.str()))) return;
  Env E(S, form); Full it = baseit(S, 1); double mu = 0.01; Pt p[2] = {basept(E, 0), basept(E, 1)}; std::vector<std::pair<double, double>> fl = {{1e9, -1e20}, {0., -1e9}};
  int A = 2*NOP; std::vector<int> seq(len, 0);
  do {
    E.place(it, mu); Ref R(E, it, mu); std::string w; int last = -1;
    for(int o : seq) { int op = o/2; Pt q = p[o%2]; w += cat(" ", oname(op), o%2); if(op == O_force) { q.s = last < 0 ? it.d : p[last].s; } if(step(E, R, op, q, fl)) require(false, "stops although the filter forbids it"); if(op == O_it) last = o%2; if(!bad.empty()) break; }
    trace(); state(hs(hs(hs(2, S.str()), form), w)); if(report(E, w)) return;
  } while(advance(seq, std::vector<int>(len, A)));
}
// when does the restoration hand the iterate back
static void stops(const Shape& S, const std::string& form)
{
  if(!mc::begin(cat("stop:", form, ":", S.str()))) return;
  Env E(S, form); auto& Q = E.F.M;
  for(int b = 0; b < 2; b++) for(double mu : {20., 1e-4}) for(int iter : {0, 1, 7}) for(double frac : {0., 0.3, 0.89, 0.91, 1.5}) {
    // the iterate: slack residuals a given fraction of those at the start
    Full it = baseit(S, b); Pt p = basept(E, b); p.iter = iter; E.place(it, mu); Ref R(E, it, mu);
    for(int i = 0; i < E.n; i++) p.x[i] = S.px[i] & 1 ? Q.xl[i]+0.5+i*0.25 : S.px[i] & 2 ? Q.xu[i]-0.75 : p.x[i];
    for(int k = 0; k < E.mi; k++) p.s[k] = S.pd[k] & 1 ? Q.cl[E.me+k]+0.5 : S.pd[k] & 2 ? Q.cu[E.me+k]-0.75 : Q.c(E.me+k, p.x.data())+0.1;
    // the largest residual of this iterate is 'frac' of what is allowed, which is set by the slack of the iterate the problem is built at
    double big = 0; for(int k = 0; k < E.M; k++) big = std::max(big, std::fabs(Q.c(k, p.x.data())-(k < E.me ? Q.cl[k] : p.s[k-E.me])));
    if(E.mi) it.d[0] = R.d0[0]+(frac > 0 ? big/(E.kappa*frac) : 1e6*big+1);
    for(int f = 0; f < 6; f++) {
      E.place(it, mu); Ref T(E, it, mu); step(E, T, O_f, p, {}); double th, phi; std::vector<std::pair<double, double>> fl; T.stop(p, {}, th, phi);
      double et = 1e-9*(1+th), ep = 1e-9*(1+std::fabs(phi));
      if(f == 1) fl = {{th-et, phi-ep}}; if(f == 2) fl = {{th+et, phi-ep}}; if(f == 3) fl = {{th-et, phi+ep}}; if(f == 4) fl = {{th+et, phi+ep}, {1e9, -1e20}}; if(f == 5) fl = {{th+et, phi-ep}, {th-et, phi-ep}};
      std::string w = cat("base ", b, " mu ", mu, " iter ", iter, " frac ", frac, " filter ", f); step(E, T, O_it, p, fl); trace(); state(hs(hs(hs(3, S.str()), form), w)); if(report(E, w)) return;
    }
  }
}
void mc_body()
{
  auto forms = [&](int n) { std::vector<std::string> f = {"dense"};
#ifdef HIOP_SPARSE
    if(n) return std::vector<std::string>{"sparse"};
#endif
    for(int k = 0; k <= n; k++) f.push_back(cat("mds", k)); return f; };
  for(int n = 1; n <= (opt.thorough ? 4 : 3); n++) for(int me = 0; me <= 2; me++) for(int mi = 0; mi <= 2; mi++) for(int r = 0; r < 4; r++) for(int t = 0; t < (mi ? 3 : 1); t++) {
    if(me > n) continue; Shape S; S.n = n; S.me = me; S.mi = mi; for(int i = 0; i < n; i++) S.px.push_back((r+i) % 4); for(int i = 0; i < mi; i++) S.pd.push_back(1+(t+i) % 3);
    for(auto& f : forms(n)) { values(S, f); stops(S, f); if(r == 1 && t == 0) orders(S, f, n <= 2 ? (opt.thorough ? 4 : 3) : 2); if(opt.thorough && n <= 3 && r == 3) orders(S, f, 3); }
  }
}
