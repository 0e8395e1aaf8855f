#pragma once
// Problems of every shape, and what HiOp's internal formulation of each should be (computed from the user's functions only).
#include "kfix.hpp"
namespace kf {
using nlp::INF; using nlp::Opts; using nlp::Model;
inline bool same(double a, double b) { return a == b || std::fabs(a-b) <= 1e-12*std::max(std::fabs(a), std::fabs(b))+1e-13 || (std::isnan(a) && std::isnan(b)); }
// variable types: 0 free, 1 lower, 2 upper, 3 both, 4 fixed, 5 nearly fixed; constraint types: 0 equality, 1 lower, 2 upper, 3 both
inline Model shape_model(const I& vt, const I& ct, int ns, int data)
{
  int n = vt.size(); Model M("form", n); int cnt = data*5; auto val = [&](double s) { cnt++; double v = 0.375+0.25*((cnt*7) % 11)-1.25*(cnt % 2); return s*(v == 0 ? 0.125 : v); };
  double sf = data == 0 ? 1 : data == 1 ? 50 : 300;
  M.f0 = val(sf);
  for(int i = 0; i < n; i++) { M.g[i] = val(sf); M.w[i] = val(sf); M.Q[i*n+i] = val(sf); for(int j = 0; j < i; j++) if(i >= ns && j >= ns) M.off(i, j, val(sf)); M.x0[i] = val(1); }
  for(int i = 0; i < n; i++) { double a = ((i+data) % 2 ? -1 : 1)*std::fabs(val(3)), b = data == 2 ? 40 : 1.5; switch(vt[i]) { case 1: M.bnd(i, a, INF); break; case 2: M.bnd(i, -INF, a); break; case 3: M.bnd(i, a-b, a+b); break; case 4: M.bnd(i, a, a); break; case 5: M.bnd(i, a, a+1e-16); break; } }
  for(size_t k = 0; k < ct.size(); k++) { double s = data == 0 ? 1 : (k+data) % 2 ? 400 : 2, a = ((k+data/2) % 2 ? -1 : 1)*std::fabs(val(s));
    M.con(ct[k] == 2 ? -INF : a, {}, ct[k] == 0 ? a : ct[k] == 1 ? INF : a+std::fabs(val(s))+1); for(int i = 0; i < n; i++) M.A.back()[i] = val(s); auto& B = M.B.back(); B.assign(n*n, 0.); for(int i = 0; i < n; i++) for(int j = 0; j <= i; j++) if(i == j || (i >= ns && j >= ns)) B[i*n+j] = B[j*n+i] = val(s); }
  return M;
}
struct Ref {
  const Model& M; I keep, eq, in; V xl, xu, dl, du, dl0, du0, cr; double so = 1; V sc, sd; bool scaled = false; double relax;
  Ref(const Model& M_, const Opts& o) : M(M_)
  {
    bool remove = false, frelax = false; relax = 1e-8; double fper = 1e-8; for(auto& p : o) { if(p.k == "fixed_var") { remove = p.v == "remove"; frelax = p.v == "relax"; } if(p.k == "bound_relax_perturb") relax = atof(p.v.c_str()); if(p.k == "fixed_var_perturb") fper = atof(p.v.c_str()); }
    auto fixed = [&](int i) { return M.xu[i] < INF && std::fabs(M.xl[i]-M.xu[i]) <= 1e-15*std::max(1., std::fabs(M.xu[i])); };
    for(int i = 0; i < M.n; i++) if(!(remove && fixed(i))) { keep.push_back(i); double l = M.xl[i], u = M.xu[i]; if(frelax && relax == 0 && fixed(i)) { double a = std::max(1., std::fabs(u)); u += fper*a; l -= fper*a; } xl.push_back(l-relax*std::max(1., std::fabs(l))); xu.push_back(u+relax*std::max(1., std::fabs(u))); }
    for(int k = 0; k < M.m; k++) if(M.eq(k)) { eq.push_back(k); cr.push_back(M.cl[k]); } else { in.push_back(k); dl0.push_back(M.cl[k]); du0.push_back(M.cu[k]); }
    dl = dl0; du = du0; for(size_t k = 0; k < in.size(); k++) { dl[k] -= relax*std::max(1., std::fabs(dl[k])); du[k] += relax*std::max(1., std::fabs(du[k])); }
    sc = V(eq.size(), 1.); sd = V(in.size(), 1.);
  }
  V full(const V& x) const { V r = M.xl; for(size_t i = 0; i < keep.size(); i++) r[keep[i]] = x[i]; return r; }
  double f(const V& x) const { return so*M.f(full(x).data()); }
  V grad(const V& x) const { V X = full(x), r; for(int i : keep) r.push_back(so*M.df(i, X.data())); return r; }
  V cons(const V& x, const I& id, const V& s) const { V X = full(x), r; for(size_t k = 0; k < id.size(); k++) r.push_back(s[k]*M.c(id[k], X.data())); return r; }
  V jac(const V& x, const I& id, const V& s) const { V X = full(x), r; for(size_t k = 0; k < id.size(); k++) for(int i : keep) r.push_back(s[k]*M.dc(id[k], i, X.data())); return r; }
  V hess(const V& x, double of, const V& yc, const V& yd) const { V X = full(x), r; for(int i : keep) for(int j : keep) { double v = of*so*M.ddf(i, j, X.data()); for(size_t k = 0; k < eq.size(); k++) v += yc[k]*sc[k]*M.ddc(eq[k], i, j); for(size_t k = 0; k < in.size(); k++) v += yd[k]*sd[k]*M.ddc(in[k], i, j); r.push_back(v); } return r; }
  // gradient-based scaling at x
  void scale(const V& x, const Opts& o)
  {
    double mg = 100, ming = 1e-8, mo = 0, mcg = 0; bool none = false; for(auto& p : o) { double v = atof(p.v.c_str()); if(p.k == "scaling_type") none = p.v == "none"; if(p.k == "scaling_max_grad") mg = v; if(p.k == "scaling_min_grad") ming = v; if(p.k == "scaling_max_obj_grad") mo = v; if(p.k == "scaling_max_con_grad") mcg = v; }
    if(none) return;
    double g = 0; for(double v : grad(x)) g = std::max(g, std::fabs(v)); int n = keep.size();
    auto rows = [&](const I& id) { V J = jac(x, id, V(id.size(), 1.)), r(id.size(), 0.); for(size_t k = 0; k < id.size(); k++) for(int i = 0; i < n; i++) r[k] = std::max(r[k], std::fabs(J[k*n+i])); return r; };
    auto mx = [](const V& v) { double r = 0; for(double a : v) r = std::max(r, a); return r; };
    V rc = rows(eq), rd = rows(in); double to = mo > 0 ? mo : mg, tc = mcg > 0 ? mcg : mg; if(g < to && mx(rc) < tc && mx(rd) < tc) return;
    scaled = true;
    so = mo > 0 ? (g > 0 ? mo/g : 1) : g > mg ? mg/g : 1; if(ming > 0) so = std::max(so, ming);
    auto blk = [&](const V& r, V& s) { for(size_t k = 0; k < r.size(); k++) { s[k] = mcg > 0 ? (mx(r) > 0 ? mcg/mx(r) : 1) : 1/std::max(1., r[k]/mg); if(ming > 0) s[k] = std::max(s[k], ming); } }; blk(rc, sc); blk(rd, sd);
    for(size_t k = 0; k < eq.size(); k++) cr[k] *= sc[k]; for(size_t k = 0; k < in.size(); k++) { dl[k] *= sd[k]; du[k] *= sd[k]; }
  }
};
inline std::string shape_name(const I& vt, const I& ct) { std::string s = "v"; for(int t : vt) s += "-lubfF"[t]; s += " c"; for(int t : ct) s += "elub"[t]; return s; }
inline void shapes(int n, int m, int kind, const std::function<void(const I&, const I&)>& f)   // kind 0: all types, 1: cyclic
{
  I v(kind ? 1 : n, 0), c(kind ? (m > 0) : m, 0);
  do { do { I vt(n), ct(m); for(int i = 0; i < n; i++) vt[i] = kind ? (v[0]+i) % 5 : v[i]; for(int k = 0; k < m; k++) ct[k] = kind ? (c[0]+k*3) % 4 : c[k]; f(vt, ct); } while(advance(c, I(c.size(), 4))); } while(advance(v, I(v.size(), kind ? 5 : 6)));
}
}
