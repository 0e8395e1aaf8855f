#pragma once
// Small nonlinear programs given by coefficients, presented to HiOp through each of its interfaces, with recording of every
// user callback, fault injection, and an independent KKT oracle that only uses the model's own functions.
#include <set>
#include <functional>
#include <algorithm>
#include "mc.hpp"
#include "hiopInterface.hpp"
#include "hiopNlpFormulation.hpp"
#include "hiopAlgFilterIPM.hpp"
#include <memory>
#include <map>
#include <algorithm>

namespace nlp {
using namespace hiop;
using std::vector; using std::string;
const double INF = 1e20;

// min f0 + g'x + x'Qx/2 + sum w_i x_i^4/4   s.t.  cl <= a_k'x + x'B_k x/2 <= cu,  xl <= x <= xu
struct Model {
  string name; int n = 0, m = 0;
  vector<double> xl, xu, cl, cu, x0, Q, g, w; double f0 = 0;
  vector<vector<double>> A, B;           // B[k] may be empty (linear constraint)
  bool convex = true, feasible = true;
  Model() {}
  Model(const string& nm, int n_) : name(nm), n(n_), xl(n_, -INF), xu(n_, INF), x0(n_, 0.), Q(n_*n_, 0.), g(n_, 0.), w(n_, 0.) {}
  Model& diagQ(std::initializer_list<double> d) { int i = 0; for(double v : d) { Q[i*n+i] = v; i++; } return *this; }
  Model& lin(std::initializer_list<double> d) { int i = 0; for(double v : d) g[i++] = v; return *this; }
  Model& quart(std::initializer_list<double> d) { int i = 0; for(double v : d) w[i++] = v; return *this; }
  Model& start(std::initializer_list<double> d) { int i = 0; for(double v : d) x0[i++] = v; return *this; }
  Model& off(int i, int j, double v) { Q[i*n+j] += v; Q[j*n+i] += v; return *this; }
  Model& bnd(int i, double l, double u) { xl[i] = l; xu[i] = u; return *this; }
  Model& con(double l, std::initializer_list<double> a, double u, std::initializer_list<double> diagB = {})
  {
    cl.push_back(l); cu.push_back(u); A.push_back(vector<double>(a)); A.back().resize(n, 0.);
    vector<double> b; if(diagB.size()) { b.assign(n*n, 0.); int i = 0; for(double v : diagB) { b[i*n+i] = v; i++; } }
    B.push_back(b); m++; return *this;
  }
  Model& conoff(int i, int j, double v) { auto& b = B.back(); if(b.empty()) b.assign(n*n, 0.); b[i*n+j] += v; b[j*n+i] += v; return *this; }
  Model& nonconvex() { convex = false; return *this; }
  Model& infeasible() { feasible = false; return *this; }
  double f(const double* x) const
  { double s = f0; for(int i = 0; i < n; i++) { s += g[i]*x[i] + 0.25*w[i]*x[i]*x[i]*x[i]*x[i]; for(int j = 0; j < n; j++) s += 0.5*Q[i*n+j]*x[i]*x[j]; } return s; }
  double df(int i, const double* x) const { double s = g[i] + w[i]*x[i]*x[i]*x[i]; for(int j = 0; j < n; j++) s += Q[i*n+j]*x[j]; return s; }
  double ddf(int i, int j, const double* x) const { return Q[i*n+j] + (i == j ? 3*w[i]*x[i]*x[i] : 0.); }
  double c(int k, const double* x) const
  { double s = 0; for(int i = 0; i < n; i++) { s += A[k][i]*x[i]; if(!B[k].empty()) for(int j = 0; j < n; j++) s += 0.5*B[k][i*n+j]*x[i]*x[j]; } return s; }
  double dc(int k, int i, const double* x) const { double s = A[k][i]; if(!B[k].empty()) for(int j = 0; j < n; j++) s += B[k][i*n+j]*x[j]; return s; }
  double ddc(int k, int i, int j) const { return B[k].empty() ? 0. : B[k][i*n+j]; }
  bool eq(int k) const { return cl[k] == cu[k]; }
  int neq() const { int r = 0; for(int k = 0; k < m; k++) r += eq(k); return r; }
  vector<int> order() const { vector<int> r; for(int k = 0; k < m; k++) if(eq(k)) r.push_back(k); for(int k = 0; k < m; k++) if(!eq(k)) r.push_back(k); return r; }
  bool sepqp() const   // linear constraints, constant diagonal Hessian
  { for(auto& b : B) for(double v : b) if(v != 0) return false; for(double v : w) if(v != 0) return false; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(i != j && Q[i*n+j] != 0) return false; return true; }
  hiopInterfaceBase::NonlinearityType type() const   // the truth about the problem: linear, quadratic objective with linear constraints, or nonlinear
  { for(auto& b : B) for(double v : b) if(v != 0) return hiopInterfaceBase::hiopNonlinear; for(double v : w) if(v != 0) return hiopInterfaceBase::hiopNonlinear; for(double v : Q) if(v != 0) return hiopInterfaceBase::hiopQuadratic; return hiopInterfaceBase::hiopLinear; }
  hiopInterfaceBase::NonlinearityType contype(int k) const { for(double v : B[k]) if(v != 0) return hiopInterfaceBase::hiopQuadratic; return hiopInterfaceBase::hiopLinear; }
  int nfixed() const { int r = 0; for(int i = 0; i < n; i++) r += xl[i] == xu[i]; return r; }
};

// ---- what the user's side sees; also injects faults
enum Fn { F_sizes, F_vars, F_cons, F_start, F_eval_f, F_grad, F_con, F_jac, F_hess, F_iter, NFN };
inline const char* fname(int k) { static const char* n[] = {"get_prob_sizes","get_vars_info","get_cons_info","get_starting_point","eval_f","eval_grad_f","eval_cons","eval_Jac_cons","eval_Hess_Lagr","iterate_callback"}; return n[k]; }
struct Iter { int it; double obj, inf_pr, inf_du, mu, alpha_pr, alpha_du; vector<double> x, zl, zu, s, g, lam; int n, m, mi, ls; double logobj, one; };
struct User {
  const Model* M; vector<index_type> part; bool one_call = false; bool has_x0 = true;
  int fail_fn = -1; long fail_at = -1;        // the fail_at-th call of fail_fn returns false (from then on if 'sticky')
  bool sticky = false; int nan_mode = 0;      // instead of failing: return true with NaN (1) 
  int stop_at = -1;                            // iterate_callback returns false at this iteration
  vector<long> calls = vector<long>(NFN, 0);
  vector<string> bad;                          // breaches of the interface's contract
  vector<double> last_x; bool have_x = false;
  vector<Iter> iters; bool keep_iters = false; vector<uint64_t> ihash; bool hash_iters = false;
  int sol_calls = 0; int sol_status = 0, sol_n = -1, sol_m = -1; double sol_obj = 0; vector<double> sol_x, sol_zl, sol_zu, sol_g, sol_lam;
  vector<double> w_zl, w_zu, w_lam; bool give_duals = false;
  std::function<bool(double*, bool&, double*, double*, double*, bool&, double*)> start;   // the full starting-point method
  std::function<bool(double*, double*, double*, double*, double*, double*, double*)> warm;  // the warm-start method
  vector<vector<double>> pts; bool keep_pts = false; std::function<void(int)> on_iter;
  double slack_bound = 1e-6;                   // user functions are only evaluated within the (slightly relaxed) bounds
  bool declare = false;   // tell HiOp which parts of the problem are linear
  bool check_bounds = true; bool all_ineq = false;   // all_ineq: the formulation treats equalities as inequalities
  void err(const string& s) { if(bad.size() < 5) bad.push_back(s); }
  bool fault_done = false;
  bool hit(int fn) { long k = calls[fn]++; bool h = fn == fail_fn && (k == fail_at || (sticky && k >= fail_at && fail_at >= 0)); if(h) fault_done = true; return h; }
  void sz(int fn, int n, int m = -1)
  { if(n != M->n) err(mc::cat(fname(fn), " called with n=", n, " for a problem with ", M->n, " variables"));
    if(m >= 0 && m != M->m) err(mc::cat(fname(fn), " called with m=", m, " for a problem with ", M->m, " constraints")); }
  void point(int fn, const double* x, bool new_x)
  {
    vector<double> v(x, x+M->n);
    for(int i = 0; i < M->n; i++) {
      if(!std::isfinite(v[i])) { err(mc::cat(fname(fn), " called at a non-finite point")); break; }
      if(check_bounds && v != M->x0) {   // the user's own starting point is evaluated as given
        double sl = slack_bound*(1+std::fabs(M->xl[i])), su = slack_bound*(1+std::fabs(M->xu[i]));
        if((M->xl[i] > -INF && v[i] < M->xl[i]-sl) || (M->xu[i] < INF && v[i] > M->xu[i]+su)) { err(mc::cat(fname(fn), " called at x[", i, "]=", v[i], " outside [", M->xl[i], ",", M->xu[i], "]")); break; }
      }
    }
    if(!new_x && (!have_x || v != last_x)) err(mc::cat(fname(fn), " call #", calls[fn], ": new_x is false but the point differs from the previous evaluation's"));
    last_x = v; have_x = true;
    if(keep_pts) pts.push_back(v);
  }
};

inline bool get_vars(User& u, const int& n, double* xl, double* xu, hiopInterfaceBase::NonlinearityType* t)
{ u.sz(F_vars, n); for(int i = 0; i < u.M->n; i++) { xl[i] = u.M->xl[i]; xu[i] = u.M->xu[i]; t[i] = u.declare && u.M->type() == hiopInterfaceBase::hiopLinear ? hiopInterfaceBase::hiopLinear : hiopInterfaceBase::hiopNonlinear; } return !u.hit(F_vars); }
inline bool get_cons(User& u, const int& m, double* cl, double* cu, hiopInterfaceBase::NonlinearityType* t)
{ if(m != u.M->m) u.err("get_cons_info called with a wrong m"); for(int k = 0; k < u.M->m; k++) { cl[k] = u.M->cl[k]; cu[k] = u.M->cu[k]; t[k] = u.declare ? u.M->contype(k) : hiopInterfaceBase::hiopNonlinear; } return !u.hit(F_cons); }

template<class Base> class Common : public Base {
public:
  User& u; explicit Common(User& u_) : u(u_) {}
  bool get_prob_sizes(size_type& n, size_type& m) override { n = u.M->n; m = u.M->m; return !u.hit(F_sizes); }
  bool get_prob_info(hiopInterfaceBase::NonlinearityType& t) override { t = u.declare ? u.M->type() : hiopInterfaceBase::hiopNonlinear; return true; }
  bool get_vars_info(const size_type& n, double* xl, double* xu, hiopInterfaceBase::NonlinearityType* t) override { return get_vars(u, n, xl, xu, t); }
  bool get_cons_info(const size_type& m, double* cl, double* cu, hiopInterfaceBase::NonlinearityType* t) override { return get_cons(u, m, cl, cu, t); }
  bool eval_f(const size_type& n, const double* x, bool new_x, double& v) override
  { u.sz(F_eval_f, n); u.point(F_eval_f, x, new_x); v = u.M->f(x); if(u.hit(F_eval_f)) { if(u.nan_mode) { v = NAN; return true; } return false; } return true; }
  bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* g) override
  { u.sz(F_grad, n); u.point(F_grad, x, new_x); for(int i = 0; i < u.M->n; i++) g[i] = u.M->df(i, x); if(u.hit(F_grad)) { if(u.nan_mode) { g[0] = NAN; return true; } return false; } return true; }
  bool cons_idx(int fn, int num, const index_type* idx)
  {
    // HiOp asks for all equalities or all inequalities
    vector<int> eqs, ins; for(int k = 0; k < u.M->m; k++) (u.M->eq(k) && !u.all_ineq ? eqs : ins).push_back(k);
    vector<int> got(idx, idx+num);
    if(got != eqs && got != ins) u.err(mc::cat(fname(fn), " asked for constraints ", mc::vstr(got)));
    for(int k : got) if(k < 0 || k >= u.M->m) { u.err("constraint index out of range"); return false; }
    return true;
  }
  bool eval_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool new_x, double* c) override
  {
    if(u.one_call) return false;
    u.sz(F_con, n, m); u.point(F_con, x, new_x); if(!cons_idx(F_con, num, idx)) return false;
    for(int k = 0; k < num; k++) c[k] = u.M->c(idx[k], x);
    if(u.hit(F_con)) { if(u.nan_mode) { if(num) c[0] = NAN; return true; } return false; } return true;
  }
  bool eval_cons(const size_type& n, const size_type& m, const double* x, bool new_x, double* c) override
  {
    if(!u.one_call) { if(!u.fault_done) u.err("one-call eval_cons used although the two-call one works"); return false; }
    u.sz(F_con, n, m); u.point(F_con, x, new_x);
    for(int k = 0; k < u.M->m; k++) c[k] = u.M->c(k, x);
    if(u.hit(F_con)) { if(u.nan_mode) { if(u.M->m) c[0] = NAN; return true; } return false; } return true;
  }
  bool get_starting_point(const size_type& n, double* x0) override
  { u.sz(F_start, n); if(!u.has_x0) return false; for(int i = 0; i < u.M->n; i++) x0[i] = u.M->x0[i]; return !u.hit(F_start); }
  bool get_starting_point(const size_type& n, const size_type& m, double* x0, bool& da, double* zl, double* zu, double* lam, bool& sa, double* s) override
  {
    da = false; sa = false; if(u.start) { u.sz(F_start, n, m); return u.start(x0, da, zl, zu, lam, sa, s); } if(!u.give_duals) return false;
    u.sz(F_start, n, m); da = true;
    for(int i = 0; i < u.M->n; i++) { x0[i] = u.M->x0[i]; zl[i] = u.w_zl[i]; zu[i] = u.w_zu[i]; }
    for(int k = 0; k < u.M->m; k++) lam[k] = u.w_lam[k];
    return true;
  }
  bool get_warmstart_point(const size_type& n, const size_type& m, double* x0, double* zl, double* zu, double* lam, double* s, double* vl, double* vu) override
  { if(!u.warm) return false; u.sz(F_start, n, m); return u.warm(x0, zl, zu, lam, s, vl, vu); }
  void solution_callback(hiopSolveStatus st, size_type n, const double* x, const double* zl, const double* zu, size_type m, const double* g, const double* lam, double obj) override
  { u.sol_calls++; u.sol_status = st; u.sol_n = n; u.sol_m = m; u.sol_obj = obj; u.sol_x.assign(x, x+n); u.sol_zl.assign(zl, zl+n); u.sol_zu.assign(zu, zu+n); u.sol_g.assign(g, g+m); u.sol_lam.assign(lam, lam+m); }
  bool iterate_callback(int iter, double obj, double logobj, int n, const double* x, const double* zl, const double* zu, int mi, const double* s, int m, const double* g, const double* lam,
                        double ipr, double idu, double one, double mu, double adu, double apr, int ls) override
  {
    if(u.keep_iters) { Iter I; I.it = iter; I.obj = obj; I.logobj = logobj; I.one = one; I.inf_pr = ipr; I.inf_du = idu; I.mu = mu; I.alpha_pr = apr; I.alpha_du = adu; I.n = n; I.m = m; I.mi = mi; I.ls = ls;
      I.x.assign(x, x+n); I.zl.assign(zl, zl+n); I.zu.assign(zu, zu+n); I.s.assign(s, s+mi); I.g.assign(g, g+m); I.lam.assign(lam, lam+m); u.iters.push_back(I); }
    u.calls[F_iter]++; if(u.on_iter) u.on_iter(iter);
    if(u.hash_iters) { uint64_t h = mc::hd(mc::hd(iter, obj), mu); for(int i = 0; i < n; i++) h = mc::hd(mc::hd(mc::hd(h, x[i]), zl[i]), zu[i]); for(int k = 0; k < m; k++) h = mc::hd(h, lam[k]); u.ihash.push_back(h); }
    return !(u.stop_at >= 0 && iter == u.stop_at);
  }
};

class Dense : public Common<hiopInterfaceDenseConstraints> {
public:
  using Common::Common;
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool new_x, double* J) override
  {
    if(u.one_call) return false;
    u.sz(F_jac, n, m); u.point(F_jac, x, new_x); if(!cons_idx(F_jac, num, idx)) return false;
    for(int k = 0; k < num; k++) for(int i = 0; i < u.M->n; i++) J[k*u.M->n+i] = u.M->dc(idx[k], i, x);
    if(u.hit(F_jac)) { if(u.nan_mode) { if(num) J[0] = NAN; return true; } return false; } return true;
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool new_x, double* J) override
  {
    if(!u.one_call) { if(!u.fault_done) u.err("one-call eval_Jac_cons used although the two-call one works"); return false; }
    u.sz(F_jac, n, m); u.point(F_jac, x, new_x);
    for(int k = 0; k < u.M->m; k++) for(int i = 0; i < u.M->n; i++) J[k*u.M->n+i] = u.M->dc(k, i, x);
    if(u.hit(F_jac)) { if(u.nan_mode) { if(u.M->m) J[0] = NAN; return true; } return false; } return true;
  }
};

// the same problem with its variables distributed over the (simulated) MPI ranks
class Dist : public Dense {
public:
  vector<index_type> part; int lo, hi; std::unique_ptr<int> dummy;
  Dist(User& u_, const vector<index_type>& p) : Dense(u_), part(p) { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); lo = part[r]; hi = part[r+1]; }
  vector<double> full(const double* x) { vector<double> a(u.M->n, 0.), b(u.M->n, 0.); for(int i = lo; i < hi; i++) a[i] = x[i-lo]; MPI_Allreduce(a.data(), b.data(), u.M->n, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); return b; }
  bool get_MPI_comm(MPI_Comm& c) override { c = MPI_COMM_WORLD; return true; }
  bool get_vecdistrib_info(size_type n, index_type* c) override { for(size_t i = 0; i < part.size(); i++) c[i] = part[i]; return true; }
  bool get_vars_info(const size_type& n, double* xl, double* xu, hiopInterfaceBase::NonlinearityType* t) override
  { for(int i = lo; i < hi; i++) { xl[i-lo] = u.M->xl[i]; xu[i-lo] = u.M->xu[i]; t[i-lo] = hiopInterfaceBase::hiopNonlinear; } return true; }
  bool eval_f(const size_type& n, const double* x, bool nx, double& v) override { auto X = full(x); return Dense::eval_f(n, X.data(), nx, v); }
  bool eval_grad_f(const size_type& n, const double* x, bool nx, double* g) override { auto X = full(x); vector<double> G(u.M->n); bool r = Dense::eval_grad_f(n, X.data(), nx, G.data()); for(int i = lo; i < hi; i++) g[i-lo] = G[i]; return r; }
  bool eval_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool nx, double* c) override
  { if(u.one_call) return false; auto X = full(x); return Dense::eval_cons(n, m, num, idx, X.data(), nx, c); }
  bool eval_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* c) override { if(!u.one_call) return Dense::eval_cons(n, m, x, nx, c); auto X = full(x); return Dense::eval_cons(n, m, X.data(), nx, c); }
  void slice(const vector<double>& J, int rows, double* j) { for(int k = 0; k < rows; k++) for(int i = lo; i < hi; i++) j[k*(hi-lo)+i-lo] = J[k*u.M->n+i]; }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool nx, double* J) override
  { if(u.one_call) return false; auto X = full(x); vector<double> F(num*u.M->n+1); bool r = Dense::eval_Jac_cons(n, m, num, idx, X.data(), nx, F.data()); slice(F, num, J); return r; }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* J) override
  { if(!u.one_call) return Dense::eval_Jac_cons(n, m, x, nx, J); auto X = full(x); vector<double> F(m*u.M->n+1); bool r = Dense::eval_Jac_cons(n, m, X.data(), nx, F.data()); slice(F, m, J); return r; }
  bool get_starting_point(const size_type& n, double* x0) override { if(!u.has_x0) return false; for(int i = lo; i < hi; i++) x0[i-lo] = u.M->x0[i]; return true; }
  bool get_starting_point(const size_type& n, const size_type& m, double* x0, bool& da, double* zl, double* zu, double* lam, bool& sa, double* s) override { da = sa = false; return false; }
  void solution_callback(hiopSolveStatus st, size_type n, const double* x, const double* zl, const double* zu, size_type m, const double* g, const double* lam, double obj) override { u.sol_calls++; u.sol_status = st; u.sol_n = n; u.sol_m = m; u.sol_obj = obj; }
  bool iterate_callback(int iter, double obj, double logobj, int n, const double* x, const double* zl, const double* zu, int mi, const double* s, int m, const double* g, const double* lam, double ipr, double idu, double one, double mu, double adu, double apr, int ls) override
  { u.calls[F_iter]++; if(u.on_iter) u.on_iter(iter); int k = hi-lo;
    if(u.keep_iters) { Iter I; I.it = iter; I.obj = obj; I.logobj = logobj; I.one = one; I.inf_pr = ipr; I.inf_du = idu; I.mu = mu; I.alpha_pr = apr; I.alpha_du = adu; I.n = n; I.m = m; I.mi = mi; I.ls = ls; I.x.assign(x, x+k); I.zl.assign(zl, zl+k); I.zu.assign(zu, zu+k); I.s.assign(s, s+mi); I.g.assign(g, g+m); I.lam.assign(lam, lam+m); u.iters.push_back(I); }
    return !(u.stop_at >= 0 && iter == u.stop_at); }
};

// the first ns variables are the sparse ones: their Hessian block must be diagonal and uncoupled from the dense block
class MDS : public Common<hiopInterfaceMDS> {
public:
  int ns; MDS(User& u_, int ns_) : Common(u_), ns(ns_) {}
  static bool fits(const Model& M, int ns)
  { for(int i = 0; i < ns; i++) for(int j = 0; j < M.n; j++) if(i != j) { if(M.Q[i*M.n+j] != 0) return false; for(auto& b : M.B) if(!b.empty() && b[i*M.n+j] != 0) return false; } return true; }
  bool get_sparse_dense_blocks_info(int& nxs, int& nxd, int& nje, int& nji, int& nss, int& nsd) override
  { nxs = ns; nxd = u.M->n-ns; nje = u.M->neq()*ns; nji = (u.M->m-u.M->neq())*ns; nss = ns; nsd = 0; return true; }
  bool jac(int num, const int* idx, const double* x, int nnz, int* iJ, int* jJ, double* MJ, double* JD)
  {
    int n = u.M->n, nd = n-ns;
    if(nnz != num*ns) u.err(mc::cat("eval_Jac_cons: nnz=", nnz, " for ", num, " rows of ", ns));
    if(iJ && jJ) { int p = 0; for(int k = 0; k < num; k++) for(int j = 0; j < ns; j++) { iJ[p] = k; jJ[p] = j; p++; } }
    if(MJ) { int p = 0; for(int k = 0; k < num; k++) for(int j = 0; j < ns; j++) MJ[p++] = u.M->dc(idx[k], j, x); }
    if(JD) for(int k = 0; k < num; k++) for(int j = 0; j < nd; j++) JD[k*nd+j] = u.M->dc(idx[k], ns+j, x);
    if(u.hit(F_jac)) { if(u.nan_mode) { if(num && JD && nd) JD[0] = NAN; return true; } return false; }
    return true;
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool new_x, const size_type& nsp, const size_type& nd,
                     const size_type& nnz, index_type* iJ, index_type* jJ, double* MJ, double* JD) override
  {
    if(u.one_call) return false;
    u.sz(F_jac, n, m); u.point(F_jac, x, new_x); if(!cons_idx(F_jac, num, idx)) return false;
    if(nsp != ns || nd != u.M->n-ns) u.err("eval_Jac_cons: wrong block sizes");
    return jac(num, idx, x, nnz, iJ, jJ, MJ, JD);
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool new_x, const size_type&, const size_type&, const size_type& nnz, index_type* iJ, index_type* jJ, double* MJ, double* JD) override
  {
    if(!u.one_call) { if(!u.fault_done) u.err("one-call eval_Jac_cons used although the two-call one works"); return false; }
    u.sz(F_jac, n, m); u.point(F_jac, x, new_x); vector<int> all(u.M->m); for(int k = 0; k < u.M->m; k++) all[k] = k;
    return jac(u.M->m, all.data(), x, nnz, iJ, jJ, MJ, JD);
  }
  bool eval_Hess_Lagr(const size_type& n, const size_type& m, const double* x, bool new_x, const double& of, const double* lam, bool, const size_type& nsp, const size_type& nd, const size_type& nss,
                      index_type* iH, index_type* jH, double* MH, double* HDD, size_type& nsd, index_type*, index_type*, double*) override
  {
    u.sz(F_hess, n, m); u.point(F_hess, x, new_x);
    if(nsp != ns || nd != u.M->n-ns || nss != ns || nsd != 0) u.err("eval_Hess_Lagr: wrong block sizes");
    auto ord = u.M->order();   // the multipliers come as [lambda_eq, lambda_ineq]
    auto H = [&](int i, int j) { double s = of*u.M->ddf(i, j, x); for(int k = 0; k < u.M->m; k++) s += lam[k]*u.M->ddc(ord[k], i, j); return s; };
    if(iH && jH) for(int i = 0; i < ns; i++) { iH[i] = i; jH[i] = i; }
    if(MH) for(int i = 0; i < ns; i++) MH[i] = H(i, i);
    int d = u.M->n-ns;
    if(HDD) for(int i = 0; i < d; i++) for(int j = 0; j < d; j++) HDD[i*d+j] = H(ns+i, ns+j);
    if(u.hit(F_hess)) { if(u.nan_mode) { if(HDD && d) HDD[0] = NAN; return true; } return false; }
    return true;
  }
};

#ifdef HIOP_SPARSE
class Sparse : public Common<hiopInterfaceSparse> {
public:
  using Common::Common;
  static bool jnz(const Model& M, int k, int j) { if(M.A[k][j] != 0) return true; if(!M.B[k].empty()) for(int i = 0; i < M.n; i++) if(M.B[k][j*M.n+i] != 0) return true; return false; }
  static bool hnz(const Model& M, int i, int j) { if(i == j && M.w[i] != 0) return true; if(M.Q[i*M.n+j] != 0) return true; for(auto& b : M.B) if(!b.empty() && b[i*M.n+j] != 0) return true; return false; }
  bool get_sparse_blocks_info(size_type& nx, size_type& nje, size_type& nji, size_type& nh) override
  {
    const Model& M = *u.M; nx = M.n; nje = nji = nh = 0;
    for(int k = 0; k < M.m; k++) for(int j = 0; j < M.n; j++) if(jnz(M, k, j)) (M.eq(k) ? nje : nji)++;
    for(int i = 0; i < M.n; i++) for(int j = i; j < M.n; j++) if(hnz(M, i, j)) nh++;
    return true;
  }
  bool jac(int num, const int* idx, const double* x, int nnz, int* iJ, int* jJ, double* MJ)
  {
    const Model& M = *u.M; int p = 0;
    for(int k = 0; k < num; k++) for(int j = 0; j < M.n; j++) if(jnz(M, idx[k], j)) { if(iJ && jJ) { iJ[p] = k; jJ[p] = j; } if(MJ) MJ[p] = M.dc(idx[k], j, x); p++; }
    if(p != nnz) u.err("eval_Jac_cons: wrong nnz");
    if(u.hit(F_jac)) { if(u.nan_mode) { if(nnz && MJ) MJ[0] = NAN; return true; } return false; }
    return true;
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool new_x, const size_type& nnz, index_type* iJ, index_type* jJ, double* MJ) override
  { if(u.one_call) return false; u.sz(F_jac, n, m); u.point(F_jac, x, new_x); if(!cons_idx(F_jac, num, idx)) return false; return jac(num, idx, x, nnz, iJ, jJ, MJ); }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool new_x, const size_type& nnz, index_type* iJ, index_type* jJ, double* MJ) override
  { if(!u.one_call) { if(!u.fault_done) u.err("one-call eval_Jac_cons used although the two-call one works"); return false; }
    u.sz(F_jac, n, m); u.point(F_jac, x, new_x); vector<int> all(u.M->m); for(int k = 0; k < u.M->m; k++) all[k] = k; return jac(u.M->m, all.data(), x, nnz, iJ, jJ, MJ); }
  bool eval_Hess_Lagr(const size_type& n, const size_type& m, const double* x, bool new_x, const double& of, const double* lam, bool, const size_type& nnz, index_type* iH, index_type* jH, double* MH) override
  {
    u.sz(F_hess, n, m); u.point(F_hess, x, new_x); const Model& M = *u.M; int p = 0; auto ord = M.order();
    for(int i = 0; i < M.n; i++) for(int j = i; j < M.n; j++) if(hnz(M, i, j)) {
      if(iH && jH) { iH[p] = i; jH[p] = j; }
      if(MH) { double s = of*M.ddf(i, j, x); for(int k = 0; k < M.m; k++) s += lam[k]*M.ddc(ord[k], i, j); MH[p] = s; }
      p++; }
    if(p != nnz) u.err("eval_Hess_Lagr: wrong nnz");
    if(u.hit(F_hess)) { if(u.nan_mode) { if(MH) MH[0] = NAN; return true; } return false; }
    return true;
  }
};
#endif

// the formulations explored: dense and MDS with every split of the variables, or (built with sparse support) the sparse one
inline vector<string> forms(int n, const Model* M = nullptr)
{
#ifdef HIOP_SPARSE
  return {"sparse"};
#else
  vector<string> r = {"dense"}; for(int k = 0; k <= n; k++) if(!M || MDS::fits(*M, k)) r.push_back(mc::cat("mds", k)); return r;
#endif
}
// number of leading variables without coupling in generated data
inline int ns_of(const string& form, int n, int data) { return form.compare(0, 3, "mds") == 0 ? atoi(form.c_str()+3) : form == "sparse" && data == 2 ? (n+1)/2 : 0; }

// ---- options as text
struct Opt { string k, v; };
typedef vector<Opt> Opts;
inline string ostr(const Opts& o) { string s; for(auto& p : o) s += (s.empty() ? "" : ",") + p.k + "=" + p.v; return s; }
// the option sets and all unions of two that agree
inline vector<Opts> pairs(const vector<Opts>& os)
{
  vector<Opts> all = os; std::set<string> seen; auto key = [](Opts o) { std::sort(o.begin(), o.end(), [](const Opt& a, const Opt& b) { return a.k < b.k; }); return ostr(o); };
  for(auto& o : os) seen.insert(key(o));
  for(size_t i = 0; i < os.size(); i++) for(size_t j = i+1; j < os.size(); j++) {
    bool clash = false; Opts o = os[i];
    for(auto& q : os[j]) { bool have = false; for(auto& p : os[i]) if(p.k == q.k) { have = true; clash = clash || p.v != q.v; } if(!have) o.push_back(q); }
    if(!clash && seen.insert(key(o)).second) all.push_back(o);
  }
  return all;
}
inline void set(hiopOptions& O, const Opts& o)
{
  for(auto& p : o) {
    char* e; double d = strtod(p.v.c_str(), &e);
    if(*e) O.SetStringValue(p.k.c_str(), p.v.c_str());
    else {
      static const char* ints[] = {"max_iter","acceptable_iterations","secant_memory_len","verbosity_level","max_soc_iter","ir_outer_maxit","ir_inner_maxit","ir_inner_restart","ir_inner_conv_cond","checkpoint_save_every_N_iter"};
      bool isint = false; for(auto* q : ints) if(p.k == q) isint = true;
      if(isint) O.SetIntegerValue(p.k.c_str(), (int)d); else O.SetNumericValue(p.k.c_str(), d);
    }
  }
}

// ---- one solve
struct Sol { int st = -9999, st2 = -9999, iters = -1; double obj = 0; vector<double> x, zl, zu, lam; };
// formulation: "dense" (quasi-Newton), "mdsK" (K sparse variables), "sparse", "sparseineq"
struct Instance {
  User& u; string form; std::unique_ptr<hiopInterfaceBase> itf; std::unique_ptr<hiopNlpFormulation> f; std::unique_ptr<hiopAlgFilterIPMBase> alg;
  Instance(User& u_, const string& form_, const Opts& o) : u(u_), form(form_)
  {
    if(!u.part.empty()) { auto* d = new Dist(u, u.part); itf.reset(d); f.reset(new hiopNlpDenseConstraints(*d)); }
    else if(form == "dense") { auto* d = new Dense(u); itf.reset(d); f.reset(new hiopNlpDenseConstraints(*d)); }
    else if(form.compare(0, 3, "mds") == 0) { auto* d = new MDS(u, atoi(form.c_str()+3)); itf.reset(d); f.reset(new hiopNlpMDS(*d)); }
#ifdef HIOP_SPARSE
    else if(form == "sparse") { auto* d = new Sparse(u); itf.reset(d); f.reset(new hiopNlpSparse(*d)); }
    else if(form == "sparseineq") { u.all_ineq = true; auto* d = new Sparse(u); itf.reset(d); f.reset(new hiopNlpSparseIneq(*d)); }
#endif
    else { fprintf(stderr, "unknown formulation %s\n", form.c_str()); abort(); }
    f->options->SetIntegerValue("verbosity_level", getenv("MC_VERB") ? atoi(getenv("MC_VERB")) : 0);
    set(*f->options, o);
  }
  void make() { if(form == "dense") alg.reset(new hiopAlgFilterIPMQuasiNewton((hiopNlpDenseConstraints*)f.get())); else alg.reset(new hiopAlgFilterIPMNewton(f.get())); }
  Sol run()
  {
    if(!alg) make();
    Sol s; s.st = alg->run(); s.st2 = alg->getSolveStatus(); s.obj = alg->getObjective(); s.iters = alg->getNumIterations();
    const double G = -777.25;  // anything not overwritten is visible
    s.x.assign(u.M->n, G); s.zl.assign(u.M->n, G); s.zu.assign(u.M->n, G); s.lam.assign(u.M->m, G);
    alg->getSolution(s.x.data()); alg->getDualSolutions(s.zl.data(), s.zu.data(), s.lam.data());
    return s;
  }
};

inline bool success(int st) { return st == Solve_Success || st == Solve_Success_RelTol || st == Solve_Acceptable_Level; }

// KKT residuals of the user's problem from the model's functions.  Empty string: all within tol (relative to the size of the multipliers).
inline string kkt(const Model& M, const vector<double>& x, const vector<double>& zl, const vector<double>& zu, const vector<double>& lam, double tol, double* worst = nullptr, bool bound_duals = true, double relax = 0)
{
  double dual = 1; for(double v : zl) dual = std::max(dual, std::fabs(v)); for(double v : zu) dual = std::max(dual, std::fabs(v)); for(double v : lam) dual = std::max(dual, std::fabs(v));
  double sdual = dual; for(int i = 0; i < M.n; i++) sdual = std::max(sdual, 0.01*std::fabs(M.df(i, M.x0.data())));  // HiOp converges the objective-scaled problem
  double w = 0; string r;
  auto chk = [&](double v, double scale, const string& what) { double e = v/scale; if(std::isnan(e)) e = 1e300; w = std::max(w, e); if(!(e <= tol) && r.empty()) r = mc::cat(what, " by ", v, " (x=", mc::vstr(x), " zl=", mc::vstr(zl), " zu=", mc::vstr(zu), " lambda=", mc::vstr(lam), ")"); };
  // relax: relative relaxation of the bounds allowed on top of tol (elastic_mode)
  double cf = tol/(tol+relax);
  for(int i = 0; i < M.n; i++) {
    chk(std::isfinite(x[i]) ? 0 : NAN, 1, "x is not finite");
    if(M.xl[i] > -INF) chk(cf*(M.xl[i]-x[i]), 1+std::fabs(M.xl[i]), mc::cat("lower bound of x[", i, "] violated"));
    if(M.xu[i] < INF) chk(cf*(x[i]-M.xu[i]), 1+std::fabs(M.xu[i]), mc::cat("upper bound of x[", i, "] violated"));
  }
  for(int k = 0; k < M.m; k++) {
    double c = M.c(k, x.data());
    if(M.cl[k] > -INF) chk(cf*(M.cl[k]-c), 1+std::fabs(M.cl[k]), mc::cat("lower bound of constraint ", k, " violated"));
    if(M.cu[k] < INF) chk(cf*(c-M.cu[k]), 1+std::fabs(M.cu[k]), mc::cat("upper bound of constraint ", k, " violated"));
  }
  for(int i = 0; i < M.n; i++) {
    double s = M.df(i, x.data()); for(int k = 0; k < M.m; k++) s += lam[k]*M.dc(k, i, x.data());
    if(bound_duals || M.xl[i] != M.xu[i]) { s += zu[i]-zl[i]; chk(std::fabs(s), sdual, mc::cat("stationarity in x[", i, "] violated")); }
    if(!bound_duals) continue;
    chk(-zl[i], 1, mc::cat("zl[", i, "] negative")); chk(-zu[i], 1, mc::cat("zu[", i, "] negative"));
    if(M.xl[i] <= -INF) chk(std::fabs(zl[i]), 1, mc::cat("zl[", i, "] nonzero without a lower bound")); else chk(cf*(std::fabs(zl[i]*(x[i]-M.xl[i]))), dual*(1+std::fabs(M.xl[i])), mc::cat("complementarity at the lower bound of x[", i, "] violated"));
    if(M.xu[i] >= INF) chk(std::fabs(zu[i]), 1, mc::cat("zu[", i, "] nonzero without an upper bound")); else chk(cf*(std::fabs(zu[i]*(M.xu[i]-x[i]))), dual*(1+std::fabs(M.xu[i])), mc::cat("complementarity at the upper bound of x[", i, "] violated"));
  }
  for(int k = 0; k < M.m; k++) if(!M.eq(k)) {
    double c = M.c(k, x.data());
    // lambda>0 pushes against the upper bound, lambda<0 against the lower one
    if(lam[k] > 0) { if(M.cu[k] >= INF) chk(lam[k], 1, mc::cat("lambda[", k, "] positive without an upper bound")); else chk(cf*(lam[k]*std::fabs(M.cu[k]-c)), dual*(1+std::fabs(M.cu[k])), mc::cat("complementarity at the upper bound of constraint ", k, " violated")); }
    if(lam[k] < 0) { if(M.cl[k] <= -INF) chk(-lam[k], 1, mc::cat("lambda[", k, "] negative without a lower bound")); else chk(cf*(-lam[k]*std::fabs(c-M.cl[k])), dual*(1+std::fabs(M.cl[k])), mc::cat("complementarity at the lower bound of constraint ", k, " violated")); }
  }
  if(worst) *worst = w;
  return r;
}

// ---- the families of problems
inline vector<Model> family(bool with_fixed = false)
{
  vector<Model> F; auto add = [&](const Model& m) { F.push_back(m); };
  // bound types on a separable strictly convex objective: all 4x4 combinations on two variables, active and inactive
  for(int a = 0; a < 5; a++) for(int b = 0; b < 5; b++) {
    Model M(mc::cat("bnd", a, b), 2); M.diagQ({2, 3}).lin({-4, 6});          // free minimizer (2,-2)
    auto sb = [&](int i, int t) { double o = i ? -2 : 2;
      if(t == 0) return; if(t == 1) M.bnd(i, o-1, INF); if(t == 2) M.bnd(i, -INF, o-1); if(t == 3) M.bnd(i, o+0.5, o+2); if(t == 4) M.bnd(i, o-3, o+3); };
    sb(0, a); sb(1, b); M.start({0.25, 0.5}); add(M);
  }
  // one linear constraint of each type, active and inactive, with bounds
  for(int t = 0; t < 8; t++) {
    Model M(mc::cat("lin", t), 3); M.diagQ({2, 2, 2}).lin({-2, -4, -6}).bnd(0, 0, INF).bnd(2, -INF, 2.5).start({1, 1, 1}); // free minimizer (1,2,3)
    double s[][2] = {{3, 3}, {-INF, 4}, {7, INF}, {2, 4}, {7, 9}, {-INF, 10}, {0, INF}, {5, 7}};
    M.con(s[t][0], {1, 1, 1}, s[t][1]); add(M);
  }
  // interleaved equalities and inequalities (order of the multipliers matters)
  for(int p = 0; p < 6; p++) {
    Model M(mc::cat("mix", p), 4); M.diagQ({2, 4, 1, 3}).lin({-2, 1, -3, 2}).bnd(0, -1, 2).bnd(3, -2, INF).start({0.5, 0.5, 0.5, 0.5});
    int ord[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    for(int q = 0; q < 3; q++) switch(ord[p][q]) { case 0: M.con(1, {1, 1, 0, 0}, 1); break; case 1: M.con(-INF, {0, 1, 2, 0}, 1.5); break; case 2: M.con(0.5, {1, 0, 0, 1}, 3); break; }
    add(M);
  }
  { Model M("coupled", 3); M.diagQ({4, 3, 2}).off(1, 2, 1).lin({-8, -6, -4}).bnd(0, 0, 10).bnd(1, 0, 10).bnd(2, 0, 10).con(-INF, {1, 1, 2}, 3).start({0.5, 0.5, 0.5}); add(M); }           // hs35-like
  { Model M("circle", 2); M.lin({1, 1}).con(-INF, {0, 0}, 2, {2, 2}).start({0.5, -0.5}); add(M); }                                                  // min x+y in a disc: (-1,-1)
  { Model M("disc-box", 2); M.lin({-1, -2}).con(-INF, {0, 0}, 1, {2, 2}).bnd(0, 0.6, INF).bnd(1, -INF, 5).start({0.7, 0.1}); add(M); }
  { Model M("quartic", 3); M.quart({1, 2, 0.5}).diagQ({1, 0.5, 0}).lin({-1, 2, -3}).bnd(0, -2, 2).con(-1, {1, 1, 1}, 0.5).start({0.5, 0, 0.5}); add(M); }
  { Model M("circle-eq", 2); M.lin({1, 2}).con(4, {0, 0}, 4, {2, 2}).start({-1, -1}).nonconvex(); add(M); }
  { Model M("hyperbola", 2); M.lin({2, 1}).con(1, {0, 0}, INF).conoff(0, 1, 1).bnd(0, 0.1, INF).bnd(1, 0.1, 20).start({1, 2}).nonconvex(); add(M); }    // x*y>=1
  { Model M("nonconvex-box", 2); M.diagQ({-2, 2}).lin({0.5, -1}).bnd(0, -1, 2).bnd(1, 0, 3).start({0.5, 1}).nonconvex(); add(M); }
  { Model M("vertex", 2); M.lin({1, 1}).bnd(0, 0, INF).bnd(1, 0, INF).con(1, {1, 2}, INF).con(-INF, {1, -1}, 3).start({1, 1}); add(M); }                  // LP
  { Model M("degenerate", 2); M.diagQ({1, 1}).con(0, {1, 1}, INF).con(0, {1, 0}, INF).bnd(1, 0, INF).start({1, 1}); add(M); }                          // all active at 0, zero multipliers
  { Model M("offset", 3); M.diagQ({1, 1, 1}).lin({-1000, 2000, -1500}).bnd(0, 0, 600).con(-INF, {1, 1, 1}, -400).con(100, {100, 0, -50}, 100).start({10, -10, 10}); add(M); } // triggers scaling
  { Model M("steep", 3); M.diagQ({3000, 2, 20}).lin({-6000, -1, 5}).bnd(1, -1, 0.25).con(500, {1000, 0, 500}, 4000).con(2, {1, 1, 0}, 2).con(-INF, {0, 300, 2}, 60).start({3, 0, 1}); add(M); }      // scaling of f and of constraints
  { Model M("far-start", 2); M.diagQ({2, 2}).lin({-2, -2}).bnd(0, 0, 4).bnd(1, -10, 10).con(-INF, {1, 1}, 1).start({100, -100}); add(M); }            // start outside of the bounds
  // nonlinear constraints of different scales, equality and inequality in both orders
  for(int p = 0; p < 2; p++) { Model M(mc::cat("mixnl", p), 3); M.lin({-1, -2, -1}).diagQ({0.5, 0.5, 0.5}).bnd(0, -3, 3).start({0.5, 0.25, 0.25});
    auto ineq = [&] { M.con(-INF, {0, 0, 0}, 300, {600, 200, 100}); }; auto eq = [&] { M.con(1, {1, 1, -1}, 1); };
    if(p == 0) { ineq(); eq(); } else { eq(); ineq(); } M.con(-2, {0, 0, 1}, INF, {0, -1, 0}); add(M); }
  { Model M("mixnl2", 2); M.lin({-3, 1}).diagQ({1, 2}).con(-INF, {0, 1}, 2, {2, 0}).con(0.5, {0, 1}, 0.5, {0.5, 0}).start({0.5, 0.25}).nonconvex(); add(M); }
  { Model M("mixnl3", 2); M.lin({-300, 100}).diagQ({100, 200}).con(-INF, {0, 1}, 2, {2, 0}).con(50, {0, 100}, 50, {50, 0}).start({0.5, 0.25}).nonconvex(); add(M); }
  if(with_fixed) {
    for(int p = 0; p < 3; p++) { Model M(mc::cat("fixed", p), 3); M.diagQ({2, 2, 2}).lin({-2, -4, -6}).bnd(0, 0, 3).bnd(1, -1, 3).bnd(2, -5, 2).con(-INF, {1, 1, 1}, 4).con(1, {1, -1, 1}, 1).start({1, 1, 1}); M.bnd(p, 1.5, 1.5); add(M); }
    { Model M("fixed2", 4); M.diagQ({2, 2, 2, 2}).lin({-2, -4, -6, 1}).bnd(0, 0.5, 0.5).bnd(2, 1, 1).con(-INF, {1, 1, 1, 1}, 3).start({1, 1, 1, 0}); add(M); }
  }
  return F;
}
} // namespace nlp
