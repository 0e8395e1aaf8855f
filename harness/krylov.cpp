// The Krylov solvers tell the truth about the system they were given: every small integer matrix, right-hand side, start, preconditioner, limit and tolerance.
#include "kfix.hpp"
#include "hiopKrylovSolver.hpp"
#include "hiopLinearOperator.hpp"
#include <memory>
using namespace hiop; using namespace mc; using std::string; using std::vector;
typedef vector<double> V; typedef std::unique_ptr<hiopVectorPar> PV;
static PV vec(const V& v) { PV p(new hiopVectorPar(v.size())); for(size_t i = 0; i < v.size(); i++) p->local_data()[i] = v[i]; return p; }
static V get(hiopVector& v) { double* p = static_cast<hiopVectorPar&>(v).local_data(); return V(p, p + v.get_size()); }
static string show(const V& A, int n) { string s = "{"; for(int i = 0; i < n; i++) { for(int j = 0; j < n; j++) s += cat(A[i*n+j], " "); s += i+1 < n ? "/ " : ""; } return s + "}"; }
// the operator given to the solver: a plain matrix, writing its result as it goes (as the library's own matrices do)
struct Op : hiopLinearOperator { V A; int n; Op(const V& A_, int n_) : A(A_), n(n_) {}
  void mul(hiopVector& y, const hiopVector& x, bool t) { double* Y = static_cast<hiopVectorPar&>(y).local_data(); const double* X = static_cast<const hiopVectorPar&>(x).local_data_const(); for(int i = 0; i < n; i++) Y[i] = 0; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) Y[i] += (t ? A[j*n+i] : A[i*n+j])*X[j]; }
  bool times_vec(hiopVector& y, const hiopVector& x) override { mul(y, x, false); return true; } bool trans_times_vec(hiopVector& y, const hiopVector& x) override { mul(y, x, true); return true; } };
static double nrm(const V& v) { double s = 0; for(double x : v) s += x*x; return std::sqrt(s); }
static V residual(const V& A, const V& x, const V& b) { int n = b.size(); V r = b; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) r[i] -= A[i*n+j]*x[j]; return r; }
static double det(const V& A, int n) { if(n == 1) return A[0]; if(n == 2) return A[0]*A[3] - A[1]*A[2]; return A[0]*(A[4]*A[8]-A[5]*A[7]) - A[1]*(A[3]*A[8]-A[5]*A[6]) + A[2]*(A[3]*A[7]-A[4]*A[6]); }
static V inverse(const V& A, int n) { double d = det(A, n); if(n == 1) return V{1/d}; if(n == 2) return V{A[3]/d, -A[1]/d, -A[2]/d, A[0]/d};
  return V{(A[4]*A[8]-A[5]*A[7])/d, (A[2]*A[7]-A[1]*A[8])/d, (A[1]*A[5]-A[2]*A[4])/d, (A[5]*A[6]-A[3]*A[8])/d, (A[0]*A[8]-A[2]*A[6])/d, (A[2]*A[3]-A[0]*A[5])/d, (A[3]*A[7]-A[4]*A[6])/d, (A[1]*A[6]-A[0]*A[7])/d, (A[0]*A[4]-A[1]*A[3])/d}; }
static bool spd(const V& A, int n) { for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) if(A[i*n+j] != A[j*n+i]) return false; if(!(A[0] > 0)) return false; if(n > 1 && !(A[0]*A[n+1] - A[1]*A[n] > 0)) return false; return n < 3 || det(A, n) > 0; }
enum Prec { None, JacL, JacR, InvL, InvR, Split, nPrec };
static const char* pname(int p) { static const char* s[] = {"none", "Jacobi left", "Jacobi right", "inverse left", "inverse right", "inverse as left times right"}; return s[p]; }
struct Cfg { bool cg; int prec, start, maxit; double tol; string str() const { return cat(cg ? "PCG" : "BiCGStab", ", preconditioner ", pname(prec), ", start ", start, ", at most ", maxit, " iterations, tolerance ", tol); } };

// one solver object, one right-hand side after another
static bool run(const V& A, int n, const Cfg& c, const vector<V>& bs, const string& sys)
{
  V PL, PR; double d = det(A, n); auto jac = [&]() { V J(n*n, 0.); for(int i = 0; i < n; i++) J[i*n+i] = A[i*n+i] != 0 ? 1/A[i*n+i] : 1; return J; };
  if((c.prec == InvL || c.prec == InvR || c.prec == Split) && d == 0) return true;
  if(c.prec == JacL) PL = jac(); if(c.prec == JacR) PR = jac(); if(c.prec == InvL) PL = inverse(A, n); if(c.prec == InvR) PR = inverse(A, n);
  if(c.prec == Split) { PL = inverse(A, n); PR = V(n*n, 0.); for(int i = 0; i < n; i++) PR[i*n+i] = 2; for(double& v : PL) v /= 2; }
  Op oA(A, n); std::unique_ptr<Op> oL, oR; if(!PL.empty()) oL.reset(new Op(PL, n)); if(!PR.empty()) oR.reset(new Op(PR, n));
  V x0(n, 0.); if(c.start == 1) for(int i = 0; i < n; i++) x0[i] = 1 - 2*i; if(c.start == 2) { for(int i = 0; i < n; i++) x0[i] = i + 1; } // start 2 is the solution of the first right-hand side b = A*(1,2,..)
  PV vx0 = vec(x0); std::unique_ptr<hiopKrylovSolver> s; hiopVector* px = c.start ? vx0.get() : nullptr; hiopPCGSolver* cg = 0; hiopBiCGStabSolver* bi = 0;
  if(c.cg) s.reset(cg = new hiopPCGSolver(n, &oA, oL.get(), oR.get(), px)); else s.reset(bi = new hiopBiCGStabSolver(n, &oA, oL.get(), oR.get(), px));
  s->set_tol(c.tol); s->set_max_num_iter(c.maxit); V start = x0; double na = nrm(A);
  for(size_t q = 0; q < bs.size(); q++) {
    V b = bs[q]; double nb = nrm(b); PV vb = vec(b); if(q) { s->set_x0(0.); start = V(n, 0.); }
    bool ok = c.cg ? cg->solve(vb.get()) : bi->solve(vb.get()); trans(); V x = get(*vb); double r = nrm(residual(A, x, b)), r0 = nrm(residual(A, start, b)), slack = 1e-11*(na*(nrm(x) + nrm(start)) + nb);
    auto ctx = [&]() { return cat(sys, ", ", c.str(), ", right-hand side ", q+1, " ", vstr(b), ": x=", vstr(x), " returned ", ok, " flag ", s->get_convergence_flag(), " residual ", r, " reported ", s->get_sol_abs_resid(), " relative ", s->get_sol_rel_resid(), " iterations ", s->get_sol_num_iter()); };
    if(nb == 0) { if(!ok || nrm(x) != 0) { fail("zero-rhs", ctx()); return false; } if(s->get_sol_abs_resid() != 0 || s->get_sol_rel_resid() != 0 || s->get_convergence_flag() != 0) { fail("reported-residual", ctx()); return false; } continue; }
    for(double v : x) if(!std::isfinite(v)) { fail("not-finite", ctx()); return false; }
    if(ok != (s->get_convergence_flag() == 0)) { fail("flag", ctx()); return false; }
    if(ok && !(r <= c.tol*nb + slack)) { fail("claimed-convergence", ctx()); return false; }
    // the same residual, computed as the solver can compute it: what it reports and claims is about this one
    { hiopVectorPar w(n); oA.times_vec(w, *vb); w.axpy(-1., *vec(b)); double rr = w.twonorm();
      if(ok && !(rr <= c.tol*vec(b)->twonorm()*(1 + 1e-12))) { fail("claimed-convergence", cat(ctx(), " residual ", rr)); return false; }
      if(!(std::fabs(s->get_sol_abs_resid() - rr) <= 1e-9*rr)) { fail("reported-residual", cat(ctx(), " residual ", rr)); return false; } }
    if(!(std::fabs(s->get_sol_abs_resid() - r) <= 1e-7*r + slack)) { fail("reported-residual", ctx()); return false; }
    if(!(std::fabs(s->get_sol_rel_resid()*nb - r) <= 1e-7*r + slack)) { fail("reported-residual", ctx()); return false; }
    if(!(r <= r0*(1 + 1e-9) + slack)) { fail("worse-than-start", cat(ctx(), " at the start ", r0)); return false; }
    if(s->get_sol_num_iter() < 0 || s->get_sol_num_iter() > c.maxit + 1) { fail("iterations", ctx()); return false; }
    // finite termination
    if(c.tol >= 1e-9 && !ok) {
      if(d != 0 && c.maxit >= 2 && (c.prec == InvL || c.prec == InvR || c.prec == Split) && (!c.cg || spd(A, n))) { fail("exact-preconditioner", ctx()); return false; }
      if(n <= 3 && sys[0] == '{' && c.cg && c.maxit >= n + 3 && spd(A, n) && c.prec <= JacR) { fail("finite-termination", ctx()); return false; } }
    trace();
  }
  return true;
}
static void system(const V& A, int n, bool more)
{
  V e(n); for(int i = 0; i < n; i++) e[i] = i + 1; V b1(n, 0.); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) b1[i] += A[i*n+j]*e[j]; V b2(n); for(int i = 0; i < n; i++) b2[i] = i == 0 ? 1 : i == 1 ? -3 : 0; V b3(n, 0.), b4(n, 1.); string sys = show(A, n); state(hv(n, A));
  bool symm = true; for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) symm = symm && A[i*n+j] == A[j*n+i];
  for(int cg = 0; cg <= (symm ? 1 : 0); cg++) for(int p = 0; p < nPrec; p++) for(int st = 0; st < 3; st++) for(int mi : more ? vector<int>{0, 1, 2, 3, 8, 300} : vector<int>{1, 8}) for(double tol : {1e-9, 0.3, 1e-30}) { if(mi == 300 && tol > 1e-20) continue;
    if(!run(A, n, Cfg{cg == 1, p, st, mi, tol}, {b1, b2, b3, b4, b1}, sys)) return; }
}
// systems for which rounding separates the residual of the recurrence from that of the iterate
static void illcond(int n, int kind)
{
  V A(n*n); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) A[i*n+j] = kind < 2 ? 1./(i+j+1) : kind == 2 ? (i == j ? std::pow(10., -2*i) + 1 : 1.) : kind == 3 ? (i == j ? std::pow(10., -i) : 0.) + (j == i+1 ? 3. : 0.) : (i == j ? 2. : std::abs(i-j) == 1 ? -1. : 0.)*std::pow(10., i%3+j%3);
  if(kind == 1) for(int i = 0; i < n; i++) A[i*n+i] += 1e-10; bool symm = kind != 3; string sys = cat("ill-conditioned kind ", kind, " "); vector<V> bs; for(int k = 0; k < 4; k++) { V b(n); for(int i = 0; i < n; i++) b[i] = k == 0 ? 1 : k == 1 ? 1 + i*i : k == 2 ? (i % 2 ? -1e3 : 1e-3) : i == n-1; bs.push_back(b); } state(hv(n, A));
  for(int cg = 0; cg <= (symm ? 1 : 0); cg++) for(int p : {None, JacL, JacR}) for(int st = 0; st < 3; st++) for(int mi : {n-1, n, n+1, 3*n, 100, 400}) for(int e = 5; e <= 16; e++) if(!run(A, n, Cfg{cg == 1, p, st, mi, std::pow(10., -e)}, bs, sys)) return;
}
static void all(int n, int range, int part, int parts, bool more)
{ vector<int> d(n*n, 0), radix(n*n, 2*range+1); uint64_t k = 0; do { if((int)(k++ % parts) != part) continue; V A(n*n); for(int i = 0; i < n*n; i++) A[i] = d[i] - range; uint64_t f = nfails(); system(A, n, more); if(nfails() > f + 20) return; } while(advance(d, radix)); }
static void symmetric(int n, int range, int part, int parts, int shift, bool more)
{ int len = n*(n+1)/2; vector<int> d(len, 0), radix(len, 2*range+1); uint64_t k = 0; do { if((int)(k++ % parts) != part) continue; V A(n*n); int q = 0; for(int i = 0; i < n; i++) for(int j = i; j < n; j++, q++) A[i*n+j] = A[j*n+i] = d[q] - range + (i == j ? shift : 0); system(A, n, more); } while(advance(d, radix)); }
void mc_body()
{
  if(begin("all:1")) all(1, 4, 0, 1, true);
  for(int n = 2; n <= (opt.thorough ? 12 : 8); n++) for(int k = 0; k < 5; k++) if(begin(cat("ill:", n, ":", k))) illcond(n, k);
  for(int p = 0; p < 16; p++) if(begin(cat("all:2:", p))) { if(p == 3) sample("all 2x2 matrices with entries -2..2 x 2 solvers x 6 preconditioners x 3 starts x 6 limits x 3 tolerances x 5 right-hand sides in a row"); all(2, opt.thorough ? 3 : 2, p, 16, true); }
  for(int p = 0; p < 32; p++) if(begin(cat("all:3:", p))) all(3, 1, p, 32, opt.thorough);
  for(int p = 0; p < 16; p++) if(begin(cat("sym:3:", p))) symmetric(3, opt.thorough ? 2 : 1, p, 16, 0, true);
  for(int p = 0; p < 16; p++) if(begin(cat("spd:3:", p))) symmetric(3, opt.thorough ? 2 : 1, p, 16, 4, true);
}
