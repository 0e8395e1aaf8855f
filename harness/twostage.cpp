// Primal decomposition, the outer loop itself: every master problem a run hands to the user, every point the recourse terms are asked at, the
// curvature of the recourse model, the stopping rule and the result, compared with a reference computed from what the user's problem returned.
#include "mc.hpp"
#include "hiopAlgPrimalDecomp.hpp"
#include "hiopInterfacePrimalDecomp.hpp"
#include "hiopVectorPar.hpp"
#include "hiopVectorIntSeq.hpp"
#include <map>
#include <memory>
#include <unistd.h>
using namespace hiop; using namespace mc;
using std::string; using std::vector; typedef vector<double> V;

// ---- the user's problem
enum Shape { Quad, Shifted, Lin, Root, Neg, Kink, Jump, NSHAPES };
struct Two {
  int n, S, shape, base; vector<int> xc; int stat = 0;   // stat: what the master problem reports
  double f(int i, const V& x) const
  {
    double r = 0; for(size_t k = 0; k < x.size(); k++) { double d = x[k]-0.5*(i-1)-0.25*k, a = 0.5+0.75*i;
      switch(shape) { case Quad: r += 0.5*a*d*d; break; case Shifted: r += 0.5*a*d*d+3; break; case Lin: r += a*x[k]+10; break; case Root: r += std::sqrt(1+a*d*d); break; case Neg: r += 0.25*a*d*d-20; break; case Kink: r += a*std::fabs(d)+0.125; break; default: r += 0.5*a*d*d+(d > 0.3 ? 5 : 1); } }
    return r;
  }
  V g(int i, const V& x) const
  {
    V r(x.size()); for(size_t k = 0; k < x.size(); k++) { double d = x[k]-0.5*(i-1)-0.25*k, a = 0.5+0.75*i;
      switch(shape) { case Quad: case Shifted: case Jump: r[k] = a*d; break; case Lin: r[k] = a; break; case Root: r[k] = a*d/std::sqrt(1+a*d*d); break; case Neg: r[k] = 0.5*a*d; break; default: r[k] = d > 0 ? a : d < 0 ? -a : 0; } }
    return r;
  }
  // base problem: min sum w (x-T)^2 over a box; with the separable model added it has a closed form
  double T(int i) const { return base == 1 ? -2-i : 1.5+0.5*i; } double w(int i) const { return base == 2 ? 0.05 : 1+0.5*i; } double lo(int) const { return base == 3 ? 0 : -1e9; } double up(int i) const { return base == 3 ? 0.75+0.5*i : 1e9; }
  double b(const V& x) const { double r = 0; for(int i = 0; i < n; i++) r += w(i)*(x[i]-T(i))*(x[i]-T(i)); return r; }
};
struct Call { bool rec; V x, g, h, x0; double rval = 0, obj = 0; string file; int S = 0; };
struct Ask { int idx; bool grad; V x; size_t after; };
class User : public hiopInterfacePriDecProblem {
public:
  Two P; vector<Call> calls; vector<Ask> asks; string bad; V x; double obj = 0; RecourseApproxEvaluator* e = nullptr; int sets = 0;
  explicit User(const Two& p) : P(p), x(p.n, 0) {}
  void req(bool ok, const string& s) { if(!ok && bad.empty()) bad = s; }
  hiopSolveStatus solve_master(hiopVector& xv, const bool& rec, const double& = 0, const double* = 0, const double* = 0, const char* file = nullptr) override
  {
    Call c; c.rec = rec; c.file = file ? file : "(null)"; double* q = xv.local_data(); req((int)xv.get_local_size() == P.n, "size of the master's x"); int nc = P.xc.size();
    if(!calls.empty()) req(V(q, q+P.n) == calls.back().x, "the master does not start from its last solution");
    V g(P.n, 0.), h(P.n, 0.), x0(P.n, 0.);
    if(rec) {
      if(!e) { req(false, "recourse asked for without a model"); return Solve_Success; }
      c.S = e->get_S(); c.rval = e->get_rval(); auto get = [&](hiopVector* v) { req((int)v->get_local_size() == nc, "size of the model's vectors"); return V(v->local_data(), v->local_data()+nc); }; c.g = get(e->get_rgrad()); c.h = get(e->get_rhess()); c.x0 = get(e->get_x0());
      for(int k = 0; k < nc; k++) { g[P.xc[k]] = c.g[k]; h[P.xc[k]] = c.h[k]; x0[P.xc[k]] = c.x0[k]; }
    }
    for(int i = 0; i < P.n; i++) { double v = (2*P.w(i)*P.T(i)+h[i]*x0[i]-g[i])/(2*P.w(i)+h[i]); q[i] = std::min(std::max(v, P.lo(i)), P.up(i)); }
    x.assign(q, q+P.n); c.x = x; obj = P.b(x); if(rec) { double m = 0; V gr(P.n, 0.); e->eval_f(P.n, q, true, m); obj += m; e->eval_grad(P.n, q, false, gr.data());
      double mm = c.rval; for(int k = 0; k < nc; k++) { double d = x[P.xc[k]]-c.x0[k]; mm += c.g[k]*d+0.5*c.h[k]*d*d; req(near(gr[P.xc[k]], c.g[k]+c.h[k]*d, 1e-12), "gradient of the model"); } req(near(m, mm, 1e-12), cat("value of the model ", m, " instead of ", mm)); }
    c.obj = obj; calls.push_back(c);
    return P.stat == 0 ? Solve_Success : P.stat == 1 ? (rec ? Infeasible_Problem : Solve_Success) : P.stat == 2 ? (calls.size() % 2 ? Max_Iter_Exceeded : Solve_Acceptable_Level) : Solve_Acceptable_Level;
  }
  bool eval_f_rterm(size_type i, const int& n, const double* q, double& v) override { ask(i, n, q, false); v = P.f(i, V(q, q+n)); return true; }
  bool eval_grad_rterm(size_type i, const int& n, double* q, hiopVector& g) override { ask(i, n, q, true); V r = P.g(i, V(q, q+n)); req((int)g.get_local_size() == n, "size of a gradient"); std::copy(r.begin(), r.end(), g.local_data()); return true; }
  void ask(int i, int n, const double* q, bool gr) { req(n == (int)P.xc.size(), cat("a term asked with n=", n)); req(i >= 0 && i < P.S, cat("term ", i)); asks.push_back({i, gr, V(q, q+n), calls.size()}); }
  size_type get_num_rterms() const override { return P.S; } size_type get_num_vars() const override { return P.n; }
  void get_solution(double* q) const override { std::copy(x.begin(), x.end(), q); } double get_objective() override { return obj; }
  bool set_recourse_approx_evaluator(const int n, RecourseApproxEvaluator* ev) override { req(n == (int)P.xc.size(), "size of the model"); e = ev; sets++; return true; }
};
static double dot(const V& a, const V& b) { double r = 0; for(size_t i = 0; i < a.size(); i++) r += a[i]*b[i]; return r; }
// ---- the settings of a run
struct Set { double tol = 1e-5, acc = 1e-3, amin = 1e-5, amax = 1e6, ratio = 1; int acn = 25, maxit = 12; };
static string nm(const Set& s) { return cat("tol", s.tol, "-acc", s.acc, "x", s.acn, "-alpha", s.amin, "..", s.amax, "*", s.ratio, "-max", s.maxit); }

static void check(const Two& P, const Set& s, bool byfile, bool full)
{
  if(byfile) { FILE* o = fopen("hiop_pridec.options", "w"); fprintf(o, "tolerance %.17g\nacceptable_tolerance %.17g\nacceptable_iterations %d\nalpha_min %.17g\nalpha_max %.17g\nmax_iter %d\nverbosity_level 1\noptions_file_master_prob my.options\n", s.tol, s.acc, s.acn, s.amin, s.amax, s.maxit); fclose(o); } else unlink("hiop_pridec.options");
  Isolated is = isolated([&]() -> string {
    User u(P); std::unique_ptr<hiopAlgPrimalDecomposition> A(full ? new hiopAlgPrimalDecomposition(&u, MPI_COMM_WORLD) : new hiopAlgPrimalDecomposition(&u, P.xc.size(), P.xc.data(), MPI_COMM_WORLD));
    if(!byfile) { A->set_verbosity(0); A->set_tolerance(s.tol); A->set_acceptable_tolerance(s.acc); A->set_acceptable_count(s.acn); A->set_alpha_min(s.amin); A->set_alpha_max(s.amax); A->set_max_iteration(s.maxit); }
    if(s.ratio != 1) A->set_initial_alpha_ratio(s.ratio);
    int st = A->run(); hiopVectorPar sol(P.n); A->getSolution(sol); auto& C = u.calls; if(!u.bad.empty()) return u.bad;
    if(C.size() < 2 || C[0].rec) return "the base problem is not solved first"; int its = C.size()-1; if(u.sets != its) return cat("model set ", u.sets, " times in ", its, " iterations");
    if(its > s.maxit) return cat(its, " iterations"); if(V(sol.local_data(), sol.local_data()+P.n) != C.back().x || A->getObjective() != C.back().obj) return "solution or objective is not that of the last master problem";
    size_t at = 0; double ratio = s.ratio, alpha = 0, fk = 0, fkm1 = 0, bv = C[0].obj, bm1 = bv; V xm, gm; int acc = 0; bool fuzzy = false; std::ostringstream out; bool done = false; V alphas{1e6};
    for(int it = 0; it < its; it++) {
      if(done) return cat("goes on after iteration ", it-1);
      const Call& prev = C[it]; const Call& c = C[it+1]; if(!c.rec) return "master problem without recourse in the loop"; if(c.S != P.S) return cat("the model's number of terms is ", c.S); if(c.file != (byfile ? "my.options" : "hiop_pridec_master.options")) return "options file of the master problem: " + c.file;
      V x0; for(int k : P.xc) x0.push_back(prev.x[k]); if(c.x0 != x0) return cat("iteration ", it, ": model around ", vstr(c.x0), " instead of ", vstr(x0));
      std::map<std::pair<int, bool>, int> n; for(; at < u.asks.size() && u.asks[at].after == (size_t)it+1; at++) { auto& a = u.asks[at]; if(a.x != x0) return cat("iteration ", it, ": term ", a.idx, " asked at ", vstr(a.x), " instead of ", vstr(x0)); n[{a.idx, a.grad}]++; }
      double r = 0; V g(x0.size(), 0.); for(int i = 0; i < P.S; i++) { for(bool b : {false, true}) if(n[{i, b}] != 1) return cat("iteration ", it, ": term ", i, " asked ", n[{i, b}], " times"); r += P.f(i, x0); V gi = P.g(i, x0); for(size_t k = 0; k < g.size(); k++) g[k] += gi[k]; } r /= P.S; for(double& v : g) v /= P.S;
      if(!near(c.rval, r, 1e-12)) return cat("iteration ", it, ": recourse value ", c.rval, " instead of ", r); for(size_t k = 0; k < g.size(); k++) if(!near(c.g[k], g[k], 1e-12)) return cat("iteration ", it, ": recourse gradient[", k, "] ", c.g[k], " instead of ", g[k]);
      // curvature: ||g||^2/(2 f) times a ratio moved by the trust-region rule, within alpha_min and alpha_max
      double convg = 1e20; bool tie = false; V ratios{ratio}; V sk; double lin = 0, pred = 0;
      if(it == 0) { fk = r; } else {
        fkm1 = fk; fk = r; sk = x0; for(size_t k = 0; k < sk.size(); k++) sk[k] -= xm[k]; lin = dot(gm, sk); pred = fkm1+lin+0.5*alpha*dot(sk, sk); bm1 = bv; bv = prev.obj-pred;
        double rho = (bm1+fkm1-fk-bv)/(fkm1+bm1-pred-bv), size = std::fabs(bm1)+std::fabs(fkm1)+std::fabs(fk)+std::fabs(bv), den = fkm1+bm1-pred-bv; tie = std::fabs(den)*1e6 < size*1e-8 || std::fabs(rho-0.25) < 1e-6 || std::fabs(rho-0.75) < 1e-6 || !(std::fabs(den) > size*1e-12*1e3);
        auto clip = [](double v) { return std::min(5., std::max(0.5, v)); }; if(tie) ratios = {clip(ratio), clip(ratio/0.75), clip(ratio*0.75)}; else ratios = {clip(rho < 0.25 ? ratio/0.75 : rho > 0.75 ? ratio*0.75 : ratio)};
      }
      double g2 = dot(g, g); bool found = false; double ah = c.h[0]; for(double q : ratios) { double a = std::min(s.amax, std::max(s.amin, g2/2/fk*q)); if(near(ah, a, 1e-10)) { found = true; ratio = q; alpha = ah; break; } }
      for(double v : c.h) if(v != ah) return "curvature differs between variables";
      if(!found) return cat("iteration ", it, ": curvature ", ah, " instead of ", g2/2/fk*ratios[0], " within [", s.amin, ",", s.amax, "]");
      if(tie && ratios.size() > 1 && (ah == s.amin || ah == s.amax)) { fuzzy = true; }   // the ratio cannot be told
      if(it > 0) { V y = g; for(size_t k = 0; k < y.size(); k++) y[k] += -gm[k]-alpha*sk[k]; double cg = std::sqrt(dot(y, y))/std::sqrt(g2), cf = std::fabs(lin+0.5*alpha*dot(sk, sk)+bv-bm1), mag = std::fabs(bv)+std::fabs(bm1)+std::fabs(lin); convg = std::min(cf, cg); if(std::isnan(cg)) convg = cf;
        double eps = 1e-9*(1+mag); if(std::fabs(convg-s.tol) <= eps*1e-3+1e-12 || std::fabs(convg-s.acc) <= eps*1e-3+1e-12) fuzzy = true; }
      acc = convg <= s.acc ? acc+1 : 0; done = convg < s.tol || it == s.maxit-1 || acc == s.acn; xm = x0; gm = g; alphas.push_back(alpha);
      if(fuzzy) break;   // what follows depends on rounding
    }
    if(!fuzzy) { if(!done) return cat("stops after ", its, " iterations without a reason"); if(at != u.asks.size()) return "terms asked after the last master problem"; }
    int want = P.stat == 0 ? Solve_Success : P.stat == 1 ? Infeasible_Problem : P.stat == 2 ? (C.size() % 2 ? Max_Iter_Exceeded : Solve_Acceptable_Level) : Solve_Acceptable_Level; if(st != want) return cat("status ", st, " instead of the last master's ", want);
    // a run on a smooth convex problem that stopped by its tolerance is at a solution
    return cat("OK ", its, " ", fuzzy, " ", alphas.back());
  });
  trace(); if(is.kind != Isolated::Ok) { fail(is.kind == Isolated::Timeout ? "hang" : "crash", is.describe()); return; }
  if(is.text.compare(0, 3, "OK ")) { fail("outer-loop", cat(byfile ? "file " : "", nm(s), ": ", is.text)); return; }
  std::istringstream in(is.text.substr(3)); int its; bool fz; in >> its >> fz; trans(its); count("iterations", its); if(fz) count("decided-by-rounding"); state(hs(hs(0, current()), nm(s)+is.text+(byfile ? "f" : "")));
}

// ---- the recourse model as a function: all constructors, all index lists, sequences of settings, two objects interleaved
static void model(int n, const vector<int>& xc)
{
  typedef hiopInterfacePriDecProblem::RecourseApproxEvaluator E; int nc = xc.size(); bool id = nc == n; for(int k = 0; k < nc; k++) id = id && xc[k] == k;
  V lv = {-1.5, 0, 2}; auto vec = [&](const V& v) { std::unique_ptr<hiopVectorPar> r(new hiopVectorPar(v.size())); std::copy(v.begin(), v.end(), r->local_data()); return r; };
  auto cyc = [&](int k, double s) { V v(nc); for(int i = 0; i < nc; i++) v[i] = s*(((k+i*2) % 5)-1.5); return v; };
  struct M { V g, h, x0; double r; }; V x(n); int T = 1; for(int i = 0; i < n; i++) T *= 3;
  for(int ctor = 0; ctor < 5; ctor++) for(int seed = 0; seed < 4; seed++) {
    if(!id && (ctor == 0 || ctor == 1 || ctor == 3)) continue;
    M m{cyc(seed, 1), cyc(seed+1, 0.5), cyc(seed+2, 2), 0.75*seed}; std::unique_ptr<E> e;
    auto g = vec(m.g), h = vec(m.h), x0 = vec(m.x0);
    switch(ctor) { case 0: e.reset(new E(nc, "DEFAULT")); break; case 1: e.reset(new E(nc, 3, "DEFAULT")); break; case 2: e.reset(new E(nc, 3, xc.data(), "DEFAULT")); break; case 3: e.reset(new E(nc, 3, m.r, *g, *h, *x0, "DEFAULT")); break; default: e.reset(new E(nc, 3, xc.data(), m.r, *g, *h, *x0, "DEFAULT")); }
    if(ctor < 3) { e->set_rval(m.r); e->set_rgrad(nc, *g); e->set_rhess(nc, *h); e->set_x0(nc, *x0); }
    if(ctor && e->get_S() != 3) fail("model", "number of terms");
    for(int change = 0; change < 5; change++) {
      if(change == 1) { m.r = -4; e->set_rval(-4); } if(change == 2) { m.g = cyc(seed+3, 3); e->set_rgrad(nc, *vec(m.g)); } if(change == 3) { m.h = cyc(seed, 7); e->set_rhess(nc, *vec(m.h)); } if(change == 4) { m.x0 = cyc(seed+1, -1); e->set_x0(nc, *vec(m.x0)); }
      for(int t = 0; t < T; t++) { int q = t; for(int i = 0; i < n; i++, q /= 3) x[i] = lv[q % 3];
        V keep = x; double f = 10, rf = 10+m.r; V gr(n, 0.5), rg(n, 0.5); for(int k = 0; k < nc; k++) { double d = x[xc[k]]-m.x0[k]; rf += m.g[k]*d+0.5*m.h[k]*d*d; rg[xc[k]] += m.g[k]+m.h[k]*d; }
        bool nw = t & 1; bool b = e->eval_f(n, x.data(), nw, f) && e->eval_grad(n, x.data(), !nw, gr.data()); hiopVectorPar hs_(nc); for(int k = 0; k < nc; k++) hs_.local_data()[k] = 0.25; auto xv = vec(x); b = b && e->eval_hess(n, *xv, nw, hs_); trans(3); trace();
        if(!b) fail("model", "an evaluation failed"); if(x != keep) fail("model", "x changed"); if(!near(f, rf, 1e-13)) fail("model", cat("value ", f, " instead of ", rf)); for(int i = 0; i < n; i++) if(!near(gr[i], rg[i], 1e-13)) fail("model", cat("gradient ", i, ": ", gr[i], " instead of ", rg[i])); for(int k = 0; k < nc; k++) if(!near(hs_.local_data()[k], 0.25+m.h[k], 1e-13)) fail("model", "Hessian");
      }
      V a(e->get_rgrad()->local_data(), e->get_rgrad()->local_data()+nc), bq(e->get_rhess()->local_data(), e->get_rhess()->local_data()+nc), cq(e->get_x0()->local_data(), e->get_x0()->local_data()+nc); if(a != m.g || bq != m.h || cq != m.x0 || e->get_rval() != m.r) fail("model", "a getter does not return what was set"); state(hs(hs(hs(0, current()), "m"), cat(ctor, seed, change)));
    }
  }
}
// ---- the curvature rules over all sequences of points
static void rules(int n, double amin, double amax, int len)
{
  typedef hiopAlgPrimalDecomposition::HessianApprox H; hiopOptionsPriDec o(hiopOptions::default_filename_pridec_solver); o.SetIntegerValue("verbosity_level", 0);
  struct Pt { V x, g; double f; }; vector<Pt> pts; for(int k = 0; k < 5; k++) { V x(n), g(n); for(int i = 0; i < n; i++) { x[i] = ((k*3+i) % 5)-1.75; g[i] = ((k*2+i*3) % 7)-2.5; } pts.push_back({x, g, k == 3 ? -2. : 0.5+1.25*k}); }
  auto vec = [&](const V& v) { std::unique_ptr<hiopVectorPar> r(new hiopVectorPar(v.size())); std::copy(v.begin(), v.end(), r->local_data()); return r; };
  vector<int> s(len+1, 0);
  auto next = [&](int base) { for(size_t i = 0; i < s.size(); i++) { if(++s[i] < base) return true; s[i] = 0; } return false; };
  do {
    for(int how = 0; how < 4; how++) {   // 0: the rule the solver uses, 1: without the base problem, 2: Barzilai-Borwein, 3: trust region only
      H h(n, 1.5, nullptr, &o); h.set_alpha_min(amin); h.set_alpha_max(amax); h.set_alpha_ratio_min(0.25); h.set_alpha_ratio_max(4); h.set_verbosity(0); double ratio = 1.5, alpha = 1e6;
      const Pt& p = pts[s[0]]; h.initialize(p.f, *vec(p.x), *vec(p.g)); auto clip = [&](double a) { return std::min(amax, std::max(amin, a)); };
      auto f0 = [&](const Pt& q) { return clip(dot(q.g, q.g)/2/q.f*ratio); };
      double a = how == 3 ? h.get_alpha_tr() : h.get_alpha_f(*vec(p.g)); alpha = how == 3 ? clip(alpha) : f0(p); if(!near(a, alpha, 1e-12)) { fail("rules", cat("first curvature ", a, " instead of ", alpha)); return; }
      double bv = 3, bm = 3;
      for(int t = 1; t <= len; t++) {
        const Pt &q = pts[s[t]], &m = pts[s[t-1]]; h.update_hess_coeff(*vec(q.x), *vec(q.g), q.f); V sk = q.x, y = q.g; for(int i = 0; i < n; i++) { sk[i] -= m.x[i]; y[i] -= m.g[i]; } double lin = dot(m.g, sk), pred = m.f+lin+0.5*alpha*dot(sk, sk), val = 7-2.5*t;
        trans(); trace(); double cb = h.compute_base(val); if(!near(cb, val-pred, 1e-10)) { fail("rules", cat("base value ", cb, " instead of ", val-pred)); return; } bm = bv; bv = 2.0/t;
        if(s[t] != s[t-1]) {
          double rho = how == 0 ? (bm+m.f-q.f-bv)/(m.f+bm-pred-bv) : (m.f-q.f)/(m.f-pred); double gr = alpha*dot(sk, sk)/std::fabs(lin), dec = m.f-q.f; bool tie = false; for(double w : {0., 0.125, 0.25, 0.75, 1.333}) tie = tie || std::fabs(rho-w) < 1e-9; tie = tie || std::fabs(gr-0.1) < 1e-9; if(tie) { count("ties"); break; }
          if(how == 0) { h.update_ratio(bv, bm); ratio = rho < 0.25 ? ratio/0.75 : rho > 0.75 ? ratio*0.75 : ratio; }
          if(how == 1) { h.update_ratio(); if(rho > 0 && rho < 0.25 && dec > 0) ratio /= 0.75; else if(rho < 0 && dec < 0) ratio /= 0.75; else if(rho > 0.75 && rho < 1.333 && dec > 0 && gr > 0.1) ratio *= 0.75; else if(rho > 1.333 && dec < 0) ratio /= 0.75; }
          if(how < 2) ratio = std::min(4., std::max(0.25, ratio));
          if(how == 2) { a = h.get_alpha_BB(); alpha = clip(dot(sk, y)/dot(sk, sk)); } else if(how == 3) { a = h.get_alpha_tr(); alpha = clip(alpha); } else { a = h.get_alpha_f(*vec(q.g)); alpha = f0(q); }
          if(!near(a, alpha, 1e-10)) { fail("rules", cat("rule ", how, " step ", t, " of ", vstr(s), ": curvature ", a, " instead of ", alpha)); return; }
        }
        V e = y; for(int i = 0; i < n; i++) e[i] -= alpha*sk[i]; double cg = h.check_convergence_grad(*vec(q.g)), cf = h.check_convergence_fcn(bv, bm), wg = std::sqrt(dot(e, e))/std::sqrt(dot(q.g, q.g)), wf = std::fabs(lin+0.5*alpha*dot(sk, sk)+bv-bm);
        if(!near(cg, wg, 1e-10) || !near(cf, wf, 1e-10)) { fail("rules", cat("convergence measures ", cg, ",", cf, " instead of ", wg, ",", wf)); return; }
      }
      state(hs(hs(0, current()), vstr(s)+char('0'+how)));
    }
  } while(next(5));
}
void mc_body()
{
  if(!freopen("/dev/null", "w", stdout)) abort();
  vector<Set> sets; { Set s; sets.push_back(s); s.tol = 1e-12; s.acc = 1e-2; s.acn = 3; sets.push_back(s); s.acn = 1; s.acc = 0.1; sets.push_back(s); s = Set(); s.tol = 0.1; s.acc = 0.1; sets.push_back(s); s = Set(); s.amin = 2; s.amax = 5; s.tol = 1e-10; s.acc = 1e-9; sets.push_back(s); s.amin = 1e-8; s.amax = 1; sets.push_back(s); s = Set(); s.ratio = 3; sets.push_back(s); s.ratio = 0.1; sets.push_back(s); for(int k : {1, 2, 3}) { s = Set(); s.maxit = k; s.tol = 1e-14; s.acc = 1e-13; sets.push_back(s); } s = Set(); s.maxit = 60; s.acn = 5; sets.push_back(s); s.acn = 2; s.acc = 0.05; s.tol = 1e-3; sets.push_back(s); }
  for(int n = 1; n <= 3; n++) {
    vector<vector<int>> lists; for(int mask = 1; mask < (1 << n); mask++) { vector<int> l; for(int i = 0; i < n; i++) if(mask >> i & 1) l.push_back(i); do lists.push_back(l); while(std::next_permutation(l.begin(), l.end())); }
    for(auto& xc : lists) {
      if(begin(cat("model:", n, ":", vstr(xc)))) model(n, xc);
      for(int S = 1; S <= (opt.thorough ? 5 : 3); S++) for(int sh = 0; sh < NSHAPES; sh++) {
        if(!begin(cat("twostage:", n, ":", vstr(xc), ":S", S, ":shape", sh))) continue;
        for(int b = 0; b < 4; b++) for(size_t i = 0; i < sets.size(); i++) for(int st = 0; st < (i == 0 || opt.thorough ? 4 : 1); st++) { Two P{n, S, sh, b, xc, st}; check(P, sets[i], false, false); if(st == 0 && sets[i].ratio == 1 && (opt.thorough || b == 0)) { check(P, sets[i], true, false); bool id = (int)xc.size() == n; for(int k = 0; k < (int)xc.size(); k++) id = id && xc[k] == k; if(id) { check(P, sets[i], true, true); check(P, sets[i], false, true); } } }
        unlink("hiop_pridec.options");
      }
    }
    for(auto& ab : vector<std::pair<double, double>>{{1e-5, 1e6}, {0.5, 2}, {1e-8, 1e14}}) if(begin(cat("rules:", n, ":", ab.first, "-", ab.second))) rules(n, ab.first, ab.second, opt.thorough ? 5 : 4);
  }
}
