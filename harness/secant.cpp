// H01: the low-rank secant Hessian is the BFGS matrix of the last accepted pairs; products and solves agree with it, on any distribution.
#include "kfix.hpp"
#include "simmpi/simmpi.hpp"
#include <limits>
using namespace kf;
typedef long double L;

struct Ev { V s, g, jc, jd; double yc, yd; };
static std::vector<Ev> alphabet(int n)
{
  std::vector<Ev> r; V z(n, 0.); auto add = [&](V s, V y, int via = 0) { Ev e{s, z, z, z, 0.5, -0.25}; if(via == 0) e.g = y; else if(via == 1) { for(int i = 0; i < n; i++) { e.jc[i] = y[i]*2; } e.yc = 0.5; } else { for(int i = 0; i < n; i++) { e.g[i] = 0.25*y[i]; e.jc[i] = y[i]/8; e.jd[i] = -y[i]/2; } e.yc = 2; e.yd = -1; } r.push_back(e); };
  auto vec = [&](double a, double b, double c) { V v = {a, b, c}; v.resize(n); return v; };
  auto mul = [&](const V& s, int k) { static const double H[2][9] = {{2,0,0, 0,0.5,0, 0,0,1}, {3,1,-0.5, 1,2,0.25, -0.5,0.25,1}}; V y(n, 0.); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) y[i] += H[k][i*3+j]*s[j]; return y; };
  V a = vec(1, 0.5, -0.25), b = vec(-0.5, 1, 0.75), c = vec(0.25, -2, 1);
  add(a, mul(a, 0)); add(b, mul(b, 1), 2); add(c, mul(c, 1), 1);
  { V y = a; for(double& v : y) v = -v; add(a, y); }                                   // negative curvature
  add(z, vec(1, 2, 3));                                                                // no step
  { V s = vec(0x1p-10, -0x1p-10, 0x1p-11), y = s; for(double& v : y) v *= 128; add(s, y); }       // stiff
  { V s = vec(1, 0, 0), y = vec(0, 1, 1); y[0] = 0x1p-30; add(s, y); }                      // hardly any curvature (n=1: tiny but sufficient)
  { V s = vec(0x1p-30, 0x1p-30, -0x1p-30), y = mul(s, 0); add(s, y); }                            // tiny step, good curvature
  { V s = vec(0x1p-50, -0x1p-50, 0x1p-50), y = vec(1, -1, 1); add(s, y); }                     // below the threshold for steps
  return r;
}
static const char* SIG[] = {"sty", "sty_inv", "snrm_ynrm", "sty_srnm_ynrm", "sigma0"};
struct Ref {
  int n, lmax, strat; double sigma; std::vector<std::pair<V,V>> P;
  void pair(const V& s, const V& y)
  {
    double si = 0, ss = 0, yy = 0, sy = 0; for(int i = 0; i < n; i++) { si = std::max(si, std::fabs(s[i])); ss += s[i]*s[i]; yy += y[i]*y[i]; sy += s[i]*y[i]; }
    const double eps = std::numeric_limits<double>::epsilon(); if(!(si >= 100*eps) || !(sy > std::sqrt(ss)*std::sqrt(yy)*std::sqrt(eps))) return;
    if(lmax > 0) { P.push_back({s, y}); if((int)P.size() > lmax) P.erase(P.begin()); }
    sigma = strat == 0 ? sy/ss : strat == 1 ? yy/sy : strat == 2 ? std::sqrt(ss/yy) : strat == 3 ? 0.5*(sy/ss+yy/sy) : 1.; sigma = std::min(1e8, std::max(1e-8, sigma));
  }
  std::vector<L> B() const
  {
    std::vector<L> b(n*n, 0); for(int i = 0; i < n; i++) b[i*n+i] = sigma;
    for(auto& p : P) {
      std::vector<L> u(n, 0); L su = 0, sy = 0; for(int i = 0; i < n; i++) { for(int j = 0; j < n; j++) u[i] += b[i*n+j]*p.first[j]; su += u[i]*p.first[i]; sy += (L)p.first[i]*p.second[i]; }
      for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) b[i*n+j] += -u[i]*u[j]/su + (L)p.second[i]*p.second[j]/sy;
    }
    return b;
  }
};
static std::vector<L> inverse(std::vector<L> A, int n)
{
  std::vector<L> I(n*n, 0); for(int i = 0; i < n; i++) I[i*n+i] = 1;
  for(int c = 0; c < n; c++) { int p = c; for(int i = c; i < n; i++) if(std::fabs(A[i*n+c]) > std::fabs(A[p*n+c])) p = i; for(int j = 0; j < n; j++) { std::swap(A[c*n+j], A[p*n+j]); std::swap(I[c*n+j], I[p*n+j]); }
    for(int i = 0; i < n; i++) if(i != c) { L q = A[i*n+c]/A[c*n+c]; for(int j = 0; j < n; j++) { A[i*n+j] -= q*A[c*n+j]; I[i*n+j] -= q*I[c*n+j]; } } }
  for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) I[i*n+j] /= A[i*n+i]; return I;
}
static L nrm(const std::vector<L>& A, int n) { L m = 0; for(int i = 0; i < n; i++) { L s = 0; for(int j = 0; j < n; j++) s += std::fabs(A[i*n+j]); m = std::max(m, s); } return m; }

struct Env {
  Fix F; int n, lo, hi; hiopNlpDenseConstraints* f; std::unique_ptr<hiopIterate> it; std::unique_ptr<hiopVector> grad, x, y, dx; std::unique_ptr<hiopMatrix> Jc, Jd; std::unique_ptr<hiopMatrixDense> X, W;
  Env(int n_, int strat, const std::vector<index_type>& part) : F(Shape{n_, 1, 1, n_ == 1 ? I{3} : n_ == 2 ? I{1, 2} : I{3, 1, 0}, {3}}, "dense", {{"sigma_update_strategy", SIG[strat]}}, part), n(n_)
  {
    f = static_cast<hiopNlpDenseConstraints*>(F.f); it.reset(new hiopIterate(f)); grad.reset(f->alloc_primal_vec()); x.reset(f->alloc_primal_vec()); y.reset(f->alloc_primal_vec()); dx.reset(f->alloc_primal_vec()); Jc.reset(f->alloc_Jac_c()); Jd.reset(f->alloc_Jac_d());
    X.reset(f->alloc_multivector_primal(2)); W.reset(LinearAlgebraFactory::create_matrix_dense("DEFAULT", 2, 2));
    lo = 0; hi = n; if(!part.empty()) { lo = part[sim::my_rank()]; hi = part[sim::my_rank()+1]; }
  }
  void loc(hiopVector* v, const V& a) { for(int i = lo; i < hi; i++) raw(v)[i-lo] = a[i]; }
  void locm(hiopMatrix* J, const V& a, int rows) { auto* D = dynamic_cast<hiopMatrixDense*>(J); for(int k = 0; k < rows; k++) for(int i = lo; i < hi; i++) D->local_data()[k*(hi-lo)+i-lo] = a[k*n+i]; }
};
static std::string check(Env& E, hiopHessianLowRank& H, const Ref& R, int dk)
{
  int n = R.n; V D(n); for(int i = 0; i < n; i++) D[i] = dk == 0 ? 1+0.5*i : dk == 1 ? 0.25/(1+i) : (i % 2 ? 1e3 : 1e-2);
  auto B = R.B(), K = B; for(int i = 0; i < n; i++) K[i*n+i] += D[i]; auto Ki = inverse(K, n); L nb = nrm(B, n), nk = nrm(K, n), ni = nrm(Ki, n), cond = nk*ni;
  E.loc(E.dx.get(), D); H.updateLogBarrierDiagonal(*E.dx);
  // the representation (compact, by products of S and Y) loses digits when the pairs are nearly dependent: scale with its own size
  L amp = 1; for(auto& p : R.P) { L ss = 0, yy = 0, sy = 0; for(int i = 0; i < n; i++) { ss += p.first[i]*p.first[i]; yy += p.second[i]*p.second[i]; sy += p.first[i]*p.second[i]; } amp = std::max(amp, (yy/sy+R.sigma)*(1+R.sigma*ss/sy)/(nb+1e-300)); }
  L tol = 1e-10*(1+amp)*(1+std::log2(1+cond)); if(tol > 1e-6) tol = 1e-6;
  V x(n), y0(n); for(int i = 0; i < n; i++) { x[i] = 1.5-i; y0[i] = 0.75*i-1; }
  for(int q = 0; q < 3; q++) {
    double al = q == 0 ? 1 : q == 1 ? -2 : 0.5, be = q == 0 ? 0 : q == 1 ? 1 : -1; E.loc(E.x.get(), x); E.loc(E.y.get(), y0); if(q < 2) H.timesVec(be, *E.y, al, *E.x); else H.timesVec_noLogBarrierTerm(be, *E.y, al, *E.x);
    for(int i = E.lo; i < E.hi; i++) { L e = be*y0[i]; for(int j = 0; j < n; j++) e += al*B[i*n+j]*x[j]; double g = raw(E.y.get())[i-E.lo]; if(!(std::fabs(g-e) <= tol*(nb*4+2))) return cat("B*x[", i, "] is ", g, " instead of ", (double)e, " (alpha ", al, ", beta ", be, ")"); if(raw(E.x.get())[i-E.lo] != x[i]) return "timesVec changes x"; }
  }
  for(int q = 0; q <= n; q++) {
    V b(n); for(int i = 0; i < n; i++) b[i] = q == n ? 2-1.5*i : i == q; E.loc(E.y.get(), b); E.loc(E.x.get(), V(n, 77.)); H.solve(*E.y, *E.x);
    for(int i = E.lo; i < E.hi; i++) { L e = 0; for(int j = 0; j < n; j++) e += Ki[i*n+j]*b[j]; double g = raw(E.x.get())[i-E.lo]; if(!(std::fabs(g-e) <= tol*cond*(ni*4+1e-12))) return cat("solve: x[", i, "] is ", g, " instead of ", (double)e); if(raw(E.y.get())[i-E.lo] != b[i]) return "solve changes the right-hand side"; }
  }
  V X(2*n); for(int i = 0; i < 2*n; i++) X[i] = (i % 3)-0.75+0.125*i; E.locm(E.X.get(), X, 2);
  for(int q = 0; q < 3; q++) {
    double al = q == 0 ? 1 : q == 1 ? -1 : 2, be = q == 0 ? 0 : q == 1 ? 1 : -0.5, w0[] = {1, 2, 2, -3}; for(int i = 0; i < 4; i++) E.W->local_data()[i] = w0[i];
    H.symMatTimesInverseTimesMatTrans(be, *E.W, al, *E.X);
    for(int i = 0; i < 2; i++) for(int j = 0; j < 2; j++) { L e = be*w0[i*2+j]; for(int a = 0; a < n; a++) for(int c = 0; c < n; c++) e += al*X[i*n+a]*Ki[a*n+c]*X[j*n+c]; double g = E.W->local_data()[i*2+j]; if(!(std::fabs(g-e) <= tol*cond*(ni*20+1e-12)+1e-13)) return cat("X*inv*X' [", i, j, "] is ", g, " instead of ", (double)e, " (alpha ", al, ", beta ", be, ")"); }
  }
  return "";
}
static std::string run(Env& E, int lmax, int strat, const std::vector<Ev>& A, const std::vector<int>& seq, bool every)
{
  int n = E.n; hiopHessianLowRank H(E.f, lmax); Ref R{n, lmax, strat, 1.}; V x(n, 0.5), g(n, 0.25), jc(n, 1), jd(n, -1); bool first = true; Full it = full(E.F.S, 1.); mask(E.F.S, it);
  auto upd = [&](double yc, double yd) {
    E.it->setBoundsDualsToConstant(1.); { auto p = parts(*E.it); auto q = parts(it); for(int k = 0; k < 12; k++) if(k == 0 || k == 4 || k == 5 || k == 8 || k == 9) E.loc(p[k], *q[k]); else put(p[k], *q[k]); }
    E.loc(E.it->get_x(), x); raw(E.it->get_yc())[0] = yc; raw(E.it->get_yd())[0] = yd; E.loc(E.grad.get(), g); E.locm(E.Jc.get(), jc, 1); E.locm(E.Jd.get(), jd, 1);
    if(!H.update(*E.it, *E.grad, *E.Jc, *E.Jd)) return false; return true; };
  std::string e; if(!upd(9, 9)) return "first update fails"; if(every && (e = check(E, H, R, 0)).size()) return "before any pair: " + e;
  for(size_t k = 0; k < seq.size(); k++) {
    const Ev& v = A[seq[k]]; V x1 = x, g1 = g, c1 = jc, d1 = jd, s(n), y(n); for(int i = 0; i < n; i++) { x1[i] += v.s[i]; g1[i] += v.g[i]; c1[i] += v.jc[i]; d1[i] += v.jd[i]; s[i] = x1[i]-x[i]; y[i] = (g1[i]-g[i])+(c1[i]-jc[i])*v.yc+(d1[i]-jd[i])*v.yd; }
    x = x1; g = g1; jc = c1; jd = d1; first = false; if(!upd(v.yc, v.yd)) return cat("update ", k, " fails"); R.pair(s, y);
    trans(); if(every || k+1 == seq.size()) { if((e = check(E, H, R, k % 3)).size()) return cat("after pair ", k+1, ": ", e); }
  }
  return "";
}
void mc_body()
{
  for(int n = 1; n <= 3; n++) for(int strat = 0; strat < 5; strat++) for(int lmax = 0; lmax <= 3; lmax++) {
    auto A = alphabet(n); int d = opt.thorough ? 5 : 4;
    for(int first = 0; first < (int)A.size(); first++) {
      if(!begin(cat("secant:n", n, ":", SIG[strat], ":mem", lmax, ":", first))) continue;
      Isolated is = isolated([&]() -> std::string {
        Env E(n, strat, {}); std::string r; uint64_t cnt = 0;
        for(int len = 1; len <= d; len++) { std::vector<int> radix(len-1, (int)A.size()), t(len-1, 0); do { std::vector<int> seq = {first}; seq.insert(seq.end(), t.begin(), t.end()); cnt++; std::string e = run(E, lmax, strat, A, seq, len <= 3); if(!e.empty() && r.empty()) { r = cat("pairs ", vstr(seq), ": ", e); } } while(advance(t, radix)); }
        return r; }, 300);
      for(int len = 1, c = 1; len <= d; len++, c *= (int)A.size()) { trace(c); trans(c*len); } state(hs(1, current()));
      if(is.kind != Isolated::Ok) fail("secant-abnormal", is.describe()); else if(!is.text.empty()) fail("secant", is.text);
    }
  }
  // distributed over 2 and 3 ranks
  for(int n = 1; n <= 3; n++) for(int P = 2; P <= 3; P++) {
    std::vector<int> cut(P-1, 0), radix(P-1, n+1); do {
      bool up = true; for(int i = 1; i < P-1; i++) up = up && cut[i-1] <= cut[i]; if(!up) continue; std::vector<index_type> part(P+1, 0); part[P] = n; for(int i = 0; i < P-1; i++) part[i+1] = cut[i];
      for(int strat = 0; strat < 5; strat += opt.thorough ? 1 : 2) for(int lmax = 1; lmax <= 2; lmax++) {
        if(!begin(cat("secant:n", n, ":P", vstr(part), ":", SIG[strat], ":mem", lmax))) continue; auto A = alphabet(n); std::string bad;
        Isolated is = isolated([&]() -> std::string {
          sim::Config c; c.nranks = P; c.max_steps = 2000000000L;
          sim::Outcome o = sim::run(c, [&](int) { Env E(n, strat, part); int d = opt.thorough ? 4 : 3; for(int len = 1; len <= d; len++) { std::vector<int> rx(len, (int)A.size()), t(len, 0); do { std::string e = run(E, lmax, strat, A, t, len <= 2); if(!e.empty() && bad.empty()) bad = cat("rank ", sim::my_rank(), " pairs ", vstr(t), ": ", e); } while(advance(t, rx)); } },
            [](const std::vector<int>& en, bool) { return en[0]; });
          return o.ok ? bad : o.error; }, 300);
        trace(); state(hs(2, current())); if(is.kind != Isolated::Ok) fail("secant-abnormal", is.describe()); else if(!is.text.empty()) fail("secant", is.text);
      } } while(advance(cut, radix));
  }
}
