// Dense, sparse (triplet) and mixed dense-sparse matrices: every operation x shapes x sparsity patterns x data, serial and
// (dense) with the columns distributed over simulated MPI ranks, against plain dense arithmetic.
#include "mc.hpp"
#include "simmpi/simmpi.hpp"
#include "hiopMatrixDenseRowMajor.hpp"
#include "hiopMatrixSparseTriplet.hpp"
#include "hiopMatrixMDS.hpp"
#include "hiopVectorPar.hpp"
#include <memory>
#include <limits>
using namespace hiop;
using namespace mc;
typedef std::vector<double> V;
typedef std::vector<int> I;
static const double NaN = std::nan("");
static std::string bad;                       // first discrepancy of the current case
static bool same(const char* what, const double* g, const V& r)
{ for(size_t i = 0; i < r.size(); i++) if(!near(g[i], r[i], 1e-14)) { if(bad.empty()) bad = cat(what, ": entry ", i, " is ", g[i], ", expected ", r[i]); return false; } return true; }
static bool sameno(const char* what, double g, double r) { V e{r}; return same(what, &g, e); }
static void require(const char* what, bool ok) { if(!ok && bad.empty()) bad = what; }
static void done(const std::string& ctx) { trans(); trace(); if(!bad.empty()) fail("operation", cat(bad, "; ", ctx)); bad.clear(); }

// all assignments of k slots from 'al' if there are at most 'lim' of them; otherwise distinct values, with every slot
// (and every pair of slots) in turn set to each value
static void fill(int k, const V& al, double lim, const std::function<bool(const V&)>& f)
{
  V v(k); double N = std::pow((double)al.size(), k);
  if(N <= lim) { I d(k, 0), r(k, (int)al.size()); do { for(int i = 0; i < k; i++) v[i] = al[d[i]]; if(!f(v)) return; } while(k && advance(d, r)); return; }
  V g(k); for(int i = 0; i < k; i++) g[i] = (i % 2 ? -1 : 1)*(0.75 + 0.3125*i);
  if(!f(g)) return;
  for(int i = 0; i < k; i++) for(double a : al) { v = g; v[i] = a; if(!f(v)) return; for(int j = 0; j < i; j++) for(double b : al) { v[j] = b; if(!f(v)) return; v[j] = g[j]; } }
}
static const V AL = {0., 1., -2.}, COEF = {0., 1., -0.5};
static double LIM = 800;

typedef hiopMatrixDenseRowMajor D;
static std::unique_ptr<D> dense(int m, int n, const double* a, int maxm = -1)
{ std::unique_ptr<D> M(new D(m, n, nullptr, MPI_COMM_SELF, maxm)); if(m*n) memcpy(M->local_data(), a, sizeof(double)*m*n); return M; }
static std::unique_ptr<hiopVectorPar> vec(int n, const double* a)
{ std::unique_ptr<hiopVectorPar> v(new hiopVectorPar(n)); for(int i = 0; i < n; i++) v->local_data()[i] = a[i]; return v; }
static V sub(const V& v, int a, int k) { return V(v.begin()+a, v.begin()+a+k); }
static V mul(const V& A, int m, int k, bool ta, const V& B, int n, bool tb, double al, double be, const V& W)
{ V r(m*n); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) { double s = 0; for(int l = 0; l < k; l++) s += (ta ? A[l*m+i] : A[i*k+l])*(tb ? B[j*k+l] : B[l*n+j]);
    r[i*n+j] = (be == 0 ? 0 : be*W[i*n+j]) + al*s; } return r; }

// ---------------------------------------------------------------- dense, not distributed
static void dense_products(int m, int n)
{
  for(double al : COEF) for(double be : COEF) {
    if(!begin(cat("dense:times:", m, "x", n, ":", al, ",", be))) continue;
    fill(m*n + m + n, AL, LIM, [&](const V& s) {
      V A = sub(s, 0, m*n), x = sub(s, m*n, n), y = sub(s, m*n+n, m);
      auto M = dense(m, n, A.data()); auto xv = vec(n, x.data()), yv = vec(m, y.data());
      M->timesVec(be, *yv, al, *xv); same("timesVec", yv->local_data(), mul(A, m, n, false, x, 1, false, al, be, y));
      if(be == 0) { yv->setToConstant(NaN); M->timesVec(be, *yv, al, *xv); same("timesVec, beta=0 and y not set", yv->local_data(), mul(A, m, n, false, x, 1, false, al, be, y)); }
      yv = vec(m, y.data()); M->transTimesVec(be, *xv, al, *yv); same("transTimesVec", xv->local_data(), mul(A, n, m, true, y, 1, false, al, be, x));
      same("operand", M->local_data(), A); same("operand", yv->local_data(), y);
      done(cat("A=", vstr(A), " x=", vstr(x), " y=", vstr(y))); return nfails() < 20; });
    for(int k = 0; k <= 3; k++) if(m+n+k <= 8) {
      fill(m*n + n*k + m*k, AL, LIM, [&](const V& s) {
        V A = sub(s, 0, m*n), X = sub(s, m*n, n*k), W = sub(s, m*n+n*k, m*k);
        auto M = dense(m, n, A.data());
        { auto x = dense(n, k, X.data()), w = dense(m, k, W.data()); M->timesMat(be, *w, al, *x); same("timesMat", w->local_data(), mul(A, m, n, false, X, k, false, al, be, W)); same("operand", x->local_data(), X); }
        { auto x = dense(m, k, W.data()), w = dense(n, k, X.data()); M->transTimesMat(be, *w, al, *x); same("transTimesMat", w->local_data(), mul(A, n, m, true, W, k, false, al, be, X)); }
        { auto x = dense(k, n, X.data()), w = dense(m, k, W.data()); V r = mul(A, m, n, false, X, k, true, al, be, W); M->timesMatTrans(be, *w, al, *x); same("timesMatTrans", w->local_data(), r);
          w = dense(m, k, W.data()); M->timesMatTrans_local(be, *w, al, *x); same("timesMatTrans_local", w->local_data(), r); }
        same("operand", M->local_data(), A);
        done(cat("k=", k, " A=", vstr(A), " X=", vstr(X), " W=", vstr(W))); return nfails() < 20; });
    }
    state(hd(hd(mix(m, n), al), be));
  }
}
static void dense_other(int m, int n)
{
  if(begin(cat("dense:other:", m, "x", n))) fill(m*n + m, AL, LIM*4, [&](const V& s) {
    V A = sub(s, 0, m*n), v = sub(s, m*n, m), B(m*n); for(int i = 0; i < m*n; i++) B[i] = 0.5*i - 1.25;
    auto M = dense(m, n, A.data()); double mx = 0; V rm(m, 0.), sc(A), si(A);
    for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) { double a = std::fabs(A[i*n+j]); mx = std::max(mx, a); rm[i] = std::max(rm[i], a); sc[i*n+j] *= v[i]; si[i*n+j] /= v[i]; }
    sameno("max_abs_value", M->max_abs_value(), mx);
    { hiopVectorPar r(m); M->row_max_abs_value(r); same("row_max_abs_value", r.local_data(), rm); }
    { auto N = dense(m, n, A.data()); auto w = vec(m, v.data()); N->scale_row(*w, false); same("scale_row", N->local_data(), sc); bool nz = true; for(double e : v) nz = nz && e != 0;
      if(nz) { N = dense(m, n, A.data()); N->scale_row(*w, true); same("scale_row, inverse", N->local_data(), si); } same("operand", w->local_data(), v); }
    for(double al : COEF) { auto N = dense(m, n, A.data()), x = dense(m, n, B.data()); V r(A); for(int i = 0; i < m*n; i++) r[i] += al*B[i]; N->addMatrix(al, *x); same("addMatrix", N->local_data(), r); same("operand", x->local_data(), B); }
    require("isfinite is false for a finite matrix", M->isfinite());
    std::unique_ptr<hiopMatrixDense> c(M->new_copy()); require("new_copy shape", c->m() == m && c->n() == n && c->get_local_size_n() == n && c->get_local_size_m() == m); if(m*n) same("new_copy", c->local_data(), A);
    std::unique_ptr<hiopMatrixDense> k(M->alloc_clone()); require("alloc_clone shape", k->m() == m && k->n() == n); k->setToConstant(2.5); if(m*n) same("setToConstant", k->local_data(), V(m*n, 2.5));
    k->copyFrom(*M); if(m*n) same("copyFrom", k->local_data(), A); k->setToZero(); if(m*n) same("setToZero", k->local_data(), V(m*n, 0.));
    if(m*n) { k->copyFrom(B.data()); same("copyFrom array", k->local_data(), B); V o(m*n); M->copy_to(o.data()); same("copy_to", o.data(), A); }
    if(m*n) same("operand", M->local_data(), A);
    done(cat("A=", vstr(A), " v=", vstr(v))); return nfails() < 20; });
  if(begin(cat("dense:finite:", m, "x", n))) for(int i = 0; i < m*n; i++) for(double b : {NaN, HUGE_VAL, -HUGE_VAL, 1e300}) {
    V A(m*n, 1.); A[i] = b; require("isfinite", dense(m, n, A.data())->isfinite() == (b == 1e300)); done(cat("entry ", i, " is ", b)); }
  V A(m*n); for(int i = 0; i < m*n; i++) A[i] = 1. + i;
  // rows
  if(begin(cat("dense:rows:", m, "x", n))) {
    for(int r = 0; r < m; r++) {
      V w(n); for(int j = 0; j < n; j++) w[j] = -5.-j;
      { auto M = dense(m, n, A.data()); auto v = vec(n, w.data()); M->replaceRow(r, *v); V e(A); for(int j = 0; j < n; j++) e[r*n+j] = w[j]; same("replaceRow", M->local_data(), e); done(cat("row ", r)); }
      { auto M = dense(m, n, A.data()); hiopVectorPar v(n); M->getRow(r, v); same("getRow", v.local_data(), sub(A, r*n, n)); same("operand", M->local_data(), A); done(cat("row ", r)); }
    }
    for(int s = -m; s <= m; s++) { auto M = dense(m, n, A.data()); M->shiftRows(s); V e(A);
      if(std::abs(s) < m) for(int r = 0; r < m; r++) if(r-s >= 0 && r-s < m) for(int j = 0; j < n; j++) e[r*n+j] = A[(r-s)*n+j];
      same("shiftRows", M->local_data(), e); done(cat("shift ", s)); }
    for(int ex = 0; ex <= 2; ex++) { auto M = dense(m, n, A.data(), m+ex); V e(A);
      for(int x = 0; x < ex; x++) { V w(n); for(int j = 0; j < n; j++) w[j] = -7.*(x+1)-j; auto v = vec(n, w.data()); M->appendRow(*v); e.insert(e.end(), w.begin(), w.end()); require("appendRow: number of rows", M->m() == m+x+1); if(n && m+x+1) same("appendRow", M->local_data(), e); }
      hiopVectorPar x(n), y(m+ex); x.setToConstant(1.); M->timesVec(0., y, 1., x); V r(m+ex, 0.); for(int i = 0; i < m+ex; i++) for(int j = 0; j < n; j++) r[i] += e[i*n+j]; same("timesVec after appendRow", y.local_data(), r);
      done(cat("append ", ex)); }
    for(int ms = 0; ms <= 3; ms++) { V B(ms*n); for(int i = 0; i < ms*n; i++) B[i] = -1.-i; auto S = dense(ms, n, B.data());
      for(int nr = 0; nr <= std::min(ms, m); nr++) for(int rd = 0; rd + nr <= m; rd++) { auto M = dense(m, n, A.data()); M->copyRowsFrom(*S, nr, rd); V e(A); for(int i = 0; i < nr*n; i++) e[rd*n+i] = B[i]; same("copyRowsFrom(first rows)", M->local_data(), e); done(cat("rows ", nr, " to ", rd)); }
      if(ms >= m) { I d(m, 0), r(m, ms); if(ms) do { auto M = dense(m, n, A.data()); M->copyRowsFrom(*S, d.data(), m); V e(A); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) e[i*n+j] = B[d[i]*n+j]; same("copyRowsFrom(indexes)", M->local_data(), e); done(cat("rows ", vstr(d))); } while(m && advance(d, r)); }
    }
  }
  // blocks
  if(begin(cat("dense:blocks:", m, "x", n))) for(int p = 0; p <= m; p++) for(int q = 0; q <= n; q++) {
    V B(p*q); for(int i = 0; i < p*q; i++) B[i] = -1.-i; auto S = dense(p, q, B.data());
    for(int i0 = 0; i0 + p <= m; i0++) for(int j0 = 0; j0 + q <= n; j0++) {
      { auto M = dense(m, n, A.data()); M->copyBlockFromMatrix(i0, j0, *S); V e(A); for(int i = 0; i < p; i++) for(int j = 0; j < q; j++) e[(i0+i)*n+j0+j] = B[i*q+j]; same("copyBlockFromMatrix", M->local_data(), e); }
      if(p > 0 && q > 0) { auto M = dense(m, n, A.data()); auto T = dense(p, q, B.data()); T->copyFromMatrixBlock(*M, i0, j0); V e(p*q); for(int i = 0; i < p; i++) for(int j = 0; j < q; j++) e[i*q+j] = A[(i0+i)*n+j0+j]; same("copyFromMatrixBlock", T->local_data(), e); }
      done(cat("block ", p, "x", q, " at ", i0, ",", j0)); }
  }
  // symmetric / square
  if(m == n && begin(cat("dense:square:", n))) {
    V d(n); for(int i = 0; i < n; i++) d[i] = 0.5+i;
    { auto M = dense(n, n, A.data()); M->symmetrize(); V e(A); for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) e[i*n+j] = A[j*n+i]; same("symmetrize", M->local_data(), e);
      M = dense(n, n, A.data()); M->overwriteLowerTriangleWithUpper(); same("overwriteLowerTriangleWithUpper", M->local_data(), e);
      for(int i = 0; i < n; i++) for(int j = i+1; j < n; j++) { e[j*n+i] = A[j*n+i]; e[i*n+j] = A[j*n+i]; } M = dense(n, n, A.data()); M->overwriteUpperTriangleWithLower(); same("overwriteUpperTriangleWithLower", M->local_data(), e); done(""); }
    for(double al : COEF) {
      { auto M = dense(n, n, A.data()); auto v = vec(n, d.data()); M->addDiagonal(al, *v); V e(A); for(int i = 0; i < n; i++) e[i*n+i] += al*d[i]; same("addDiagonal(vector)", M->local_data(), e);
        M = dense(n, n, A.data()); M->addDiagonal(al); e = A; for(int i = 0; i < n; i++) e[i*n+i] += al; same("addDiagonal(value)", M->local_data(), e);
        M->set_Hess_FR(*dense(n, n, A.data()), *v); e = A; for(int i = 0; i < n; i++) e[i*n+i] += d[i]; if(n) same("set_Hess_FR", M->local_data(), e); done(""); }
      for(int st = 0; st <= n; st++) for(int len = 0; st + len <= n; len++) {
        V w(len+2); for(int i = 0; i < len+2; i++) w[i] = 2.5+i; auto v = vec(len, w.data()), u = vec(len+2, w.data());
        auto M = dense(n, n, A.data()); V e(A); for(int i = 0; i < len; i++) e[(st+i)*n+st+i] += al*w[i];
        M->addSubDiagonal(al, st, *v); same("addSubDiagonal(alpha,start,vector)", M->local_data(), e);
        for(int ss = 0; ss <= 2; ss++) { M = dense(n, n, A.data()); M->addSubDiagonal(st, al, *u, ss, len); V f(A); for(int i = 0; i < len; i++) f[(st+i)*n+st+i] += al*w[ss+i]; same("addSubDiagonal(start,alpha,vector,start,num)", M->local_data(), f);
          if(len+2-ss <= n-st) { M = dense(n, n, A.data()); M->addSubDiagonal(st, al, *u, ss); f = A; for(int i = 0; i < len+2-ss; i++) f[(st+i)*n+st+i] += al*w[ss+i]; same("addSubDiagonal(start,alpha,vector,start)", M->local_data(), f); } }
        M = dense(n, n, A.data()); M->addSubDiagonal(st, len, al); e = A; for(int i = 0; i < len; i++) e[(st+i)*n+st+i] += al; same("addSubDiagonal(start,num,value)", M->local_data(), e);
        done(cat("start ", st, " len ", len, " alpha ", al)); }
    }
  }
  // into a larger symmetric matrix (upper triangle)
  if(begin(cat("dense:sym:", m, "x", n))) for(int N = 0; N <= 5; N++) {
    V W(N*N); for(int i = 0; i < N*N; i++) W[i] = 0.25*i - 1.;
    for(double al : COEF) {
      for(int r0 = 0; r0 + n <= N; r0++) for(int c0 = 0; c0 + m <= N; c0++) if(r0 + n - 1 <= c0 || m*n == 0) {
        auto M = dense(m, n, A.data()), w = dense(N, N, W.data()); V e(W); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) e[(r0+j)*N+c0+i] += al*A[i*n+j];
        M->transAddToSymDenseMatrixUpperTriangle(r0, c0, al, *w); same("transAddToSymDenseMatrixUpperTriangle", w->local_data(), e); done(cat("at ", r0, ",", c0, " of ", N)); }
      if(m == n) for(int s = 0; s + n <= N; s++) {
        auto M = dense(n, n, A.data()), w = dense(N, N, W.data()); V e(W); for(int i = 0; i < n; i++) for(int j = i; j < n; j++) e[(s+i)*N+s+j] += al*A[i*n+j];
        M->addUpperTriangleToSymDenseMatrixUpperTriangle(s, al, *w); same("addUpperTriangleToSymDenseMatrixUpperTriangle", w->local_data(), e); done(cat("at ", s, " of ", N)); }
    }
  }
  state(mix(mix(m, n), 7));
}

// ---------------------------------------------------------------- dense, columns distributed
static void partitions(int n, int P, const std::function<void(const std::vector<index_type>&)>& f)
{
  std::vector<index_type> p(P+1, 0); p[P] = n;
  std::function<void(int)> rec = [&](int r) { if(r == P) { f(p); return; } for(int b = p[r-1]; b <= n; b++) { p[r] = b; rec(r+1); } };
  rec(1);
}
static void dense_dist(int m, int n, int k, const std::vector<index_type>& part)
{
  int P = (int)part.size()-1; bool stop = false;
  auto P0 = (index_type*)part.data();
  auto body = [&](int rank) {
    int lo = part[rank], ln = part[rank+1]-lo;
    auto ctx = [&]() { return cat("rank ", rank); };
    auto put = [&](D& M, const V& A, int rows, int ncols) { for(int i = 0; i < rows; i++) for(int j = 0; j < ln; j++) M.local_data()[i*ln+j] = A[i*ncols+lo+j]; };
    auto loc = [&](const V& A, int rows, int ncols) { V r(rows*ln); for(int i = 0; i < rows; i++) for(int j = 0; j < ln; j++) r[i*ln+j] = A[i*ncols+lo+j]; return r; };
    for(double al : COEF) for(double be : COEF) fill(m*n + n + m, AL, LIM/8, [&](const V& s) {
      V A = sub(s, 0, m*n), x = sub(s, m*n, n), y = sub(s, m*n+n, m), xl = sub(x, lo, ln);
      D M(m, n, P0, MPI_COMM_WORLD); put(M, A, m, n);
      hiopVectorPar xv(n, P0, MPI_COMM_WORLD), yv(m); for(int j = 0; j < ln; j++) xv.local_data()[j] = xl[j]; for(int i = 0; i < m; i++) yv.local_data()[i] = y[i];
      M.timesVec(be, yv, al, xv); same("timesVec", yv.local_data(), mul(A, m, n, false, x, 1, false, al, be, y));
      for(int i = 0; i < m; i++) yv.local_data()[i] = y[i];
      M.transTimesVec(be, xv, al, yv); V r = mul(A, n, m, true, y, 1, false, al, be, x); same("transTimesVec", xv.local_data(), sub(r, lo, ln));
      if(al == 1 && be == 0) {
        double mx = 0; V rm(m, 0.), sc(A); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) { double a = std::fabs(A[i*n+j]); mx = std::max(mx, a); rm[i] = std::max(rm[i], a); sc[i*n+j] *= y[i]; }
        sameno("max_abs_value", M.max_abs_value(), mx); hiopVectorPar rv(m); M.row_max_abs_value(rv); same("row_max_abs_value", rv.local_data(), rm);
        std::unique_ptr<hiopMatrixDense> c(M.new_copy()); if(m*ln) same("new_copy", c->local_data(), loc(A, m, n));
        hiopVectorPar o(m); xv.setToConstant(1.); c->timesVec(0., o, 1., xv); V e(m, 0.); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) e[i] += A[i*n+j]; same("timesVec of a copy", o.local_data(), e);
        M.scale_row(yv); if(m*ln) same("scale_row", M.local_data(), loc(sc, m, n));
      }
      done(cat(ctx(), " alpha=", al, " beta=", be, " A=", vstr(A), " x=", vstr(x), " y=", vstr(y))); if(nfails() >= 20) stop = true; return !stop; });
    for(double al : COEF) for(double be : COEF) fill(m*n + k*n + m*k, AL, LIM/8, [&](const V& s) {
      V A = sub(s, 0, m*n), X = sub(s, m*n, n*k), W = sub(s, m*n+n*k, m*k);
      D M(m, n, P0, MPI_COMM_WORLD), Xd(k, n, P0, MPI_COMM_WORLD); put(M, A, m, n); put(Xd, X, k, n);
      { auto w = dense(m, k, W.data()); M.timesMatTrans(be, *w, al, Xd); same("timesMatTrans", w->local_data(), mul(A, m, n, false, X, k, true, al, be, W)); }
      // local (m x k)' times distributed (m x n): k x n
      { auto L = dense(m, k, W.data()); D R(k, n, P0, MPI_COMM_WORLD); put(R, X, k, n); L->transTimesMat(be, R, al, M); V r = mul(W, k, m, true, A, n, false, al, be, X); same("transTimesMat (distributed result)", R.local_data(), loc(r, k, n)); }
      done(cat(ctx(), " k=", k, " alpha=", al, " beta=", be, " A=", vstr(A), " X=", vstr(X), " W=", vstr(W))); if(nfails() >= 20) stop = true; return !stop; });
    // elastic Jacobian [J -I I] (p and n of both blocks live on the last rank); on a matrix and on its clone
    for(int clone = 0; clone < 2; clone++) {
      int N = n + 2*m + 2*k; std::vector<index_type> big = part; big[P] = N; int bl = big[rank+1]-big[rank], blo = big[rank];
      V A(m*n), B(k*n); for(int i = 0; i < m*n; i++) A[i] = 2.+i; for(int i = 0; i < k*n; i++) B[i] = -2.-i;
      D Jc(m, n, P0, MPI_COMM_WORLD), Jd(k, n, P0, MPI_COMM_WORLD), J0(m+k, N, big.data(), MPI_COMM_WORLD); put(Jc, A, m, n); put(Jd, B, k, n);
      std::unique_ptr<hiopMatrixDense> J1(J0.alloc_clone()); D& J = clone ? dynamic_cast<D&>(*J1) : J0;
      J.setToConstant(3.); J.set_Jac_FR(Jc, Jd);
      V E((m+k)*N, 0.); for(int i = 0; i < m; i++) { for(int j = 0; j < n; j++) E[i*N+j] = A[i*n+j]; E[i*N+n+i] = -1; E[i*N+n+m+i] = 1; }
      for(int i = 0; i < k; i++) { for(int j = 0; j < n; j++) E[(m+i)*N+j] = B[i*n+j]; E[(m+i)*N+n+2*m+i] = -1; E[(m+i)*N+n+2*m+k+i] = 1; }
      V e((m+k)*bl); for(int i = 0; i < m+k; i++) for(int j = 0; j < bl; j++) e[i*bl+j] = E[i*N+blo+j];
      if(!e.empty()) same("set_Jac_FR", J.local_data(), e); done(cat(ctx(), clone ? " clone" : ""));
    }
  };
  sim::Config c; c.nranks = P; c.max_steps = 2000000000L;
  if(P == 1) { sim::Outcome o = sim::run(c, body, [](const std::vector<int>& en, bool) { return en[0]; }); if(!o.ok) fail("mpi", o.error); return; }
  sim::Outcome o = sim::run(c, body, [](const std::vector<int>& en, bool) { return en[0]; });
  if(!o.ok) fail("mpi", o.error);
  state(mix(mix(mix(m, n), k), P));
}

// ---------------------------------------------------------------- sparse triplet
struct Sp { int m, n; std::vector<std::pair<int,int>> pos; V dn(const V& v) const { V a(m*n, 0.); for(size_t i = 0; i < pos.size(); i++) a[pos[i].first*n+pos[i].second] = v[i]; return a; } };
static Sp pattern(int m, int n, int mask) { Sp s{m, n, {}}; for(int i = 0; i < m*n; i++) if((mask >> i) & 1) s.pos.push_back({i/n, i%n}); return s; }
static Sp upper(int n, int mask) { Sp s{n, n, {}}; int b = 0; for(int i = 0; i < n; i++) for(int j = i; j < n; j++, b++) if((mask >> b) & 1) s.pos.push_back({i, j}); return s; }
static V symd(const Sp& s, const V& v) { V a = s.dn(v); for(int i = 0; i < s.n; i++) for(int j = 0; j < i; j++) a[i*s.n+j] = a[j*s.n+i]; return a; }
template<class T> static void put(T& M, const Sp& s, const V& v) { for(size_t i = 0; i < s.pos.size(); i++) { M.i_row()[i] = s.pos[i].first; M.j_col()[i] = s.pos[i].second; M.M()[i] = v[i]; } }
typedef hiopMatrixSparseTriplet T; typedef hiopMatrixSymSparseTriplet ST;
static std::unique_ptr<T> trip(const Sp& s, const V& v) { std::unique_ptr<T> M(new T(s.m, s.n, (int)s.pos.size())); put(*M, s, v); return M; }
static std::unique_ptr<ST> strip(const Sp& s, const V& v) { std::unique_ptr<ST> M(new ST(s.n, (int)s.pos.size())); put(*M, s, v); return M; }
static V densify(hiopMatrixSparse& M) { V a(M.m()*M.n(), 0.); for(int k = 0; k < M.numberOfNonzeros(); k++) a[M.i_row()[k]*M.n()+M.j_col()[k]] += M.M()[k]; return a; }
static bool sorted(hiopMatrixSparse& M) { for(int k = 1; k < M.numberOfNonzeros(); k++) if(std::make_pair(M.i_row()[k-1], M.j_col()[k-1]) >= std::make_pair(M.i_row()[k], M.j_col()[k])) return false; return true; }
static V gen(int k, double b = 1.) { V g(k); for(int i = 0; i < k; i++) g[i] = (i % 2 ? -1 : 1)*(b + 0.3125*i); return g; }
static const V SAL = {0., 1.5, -2.};

static void triplet_basic(const Sp& S, const std::string& id)
{
  int m = S.m, n = S.n, z = (int)S.pos.size();
  if(!begin(cat("triplet:", id))) return;
  fill(z, SAL, 81, [&](const V& v) {
    V A = S.dn(v); auto M = trip(S, v); require("shape", M->m() == m && M->n() == n && M->numberOfNonzeros() == z);
    V x = gen(n, 0.5), y = gen(m, 2.);
    for(double al : COEF) for(double be : COEF) {
      { auto xv = vec(n, x.data()), yv = vec(m, y.data()); M->timesVec(be, *yv, al, *xv); V r = mul(A, m, n, false, x, 1, false, al, be, y); same("timesVec", yv->local_data(), r); if(be == 0) { yv->setToConstant(NaN); M->timesVec(be, *yv, al, *xv); same("timesVec, beta=0 and y not set", yv->local_data(), r); } }
      { auto xv = vec(n, x.data()), yv = vec(m, y.data()); M->transTimesVec(be, *xv, al, *yv); V r = mul(A, n, m, true, y, 1, false, al, be, x); same("transTimesVec", xv->local_data(), r); if(be == 0) { xv->setToConstant(NaN); M->transTimesVec(be, *xv, al, *yv); same("transTimesVec, beta=0 and y not set", xv->local_data(), r); } }
    }
    double mx = 0; V rm(m, 0.), sc = gen(m, 0.5), As(A), Ai(A); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) { double a = std::fabs(A[i*n+j]); mx = std::max(mx, a); rm[i] = std::max(rm[i], a); As[i*n+j] *= sc[i]; Ai[i*n+j] /= sc[i]; }
    sameno("max_abs_value", M->max_abs_value(), mx); { hiopVectorPar r(m); M->row_max_abs_value(r); same("row_max_abs_value", r.local_data(), rm); }
    { auto N = trip(S, v); auto s = vec(m, sc.data()); N->scale_row(*s, false); same("scale_row", densify(*N).data(), As); N = trip(S, v); N->scale_row(*s, true); same("scale_row, inverse", densify(*N).data(), Ai); }
    require("isfinite", M->isfinite());
    { std::unique_ptr<hiopMatrixSparse> c(M->new_copy()); require("new_copy shape", c->m() == m && c->n() == n && c->numberOfNonzeros() == z); same("new_copy", densify(*c).data(), A); c.reset(M->alloc_clone()); require("alloc_clone shape", c->m() == m && c->n() == n && c->numberOfNonzeros() == z); }
    { auto N = trip(S, v); N->setToConstant(2.); V e = S.dn(V(z, 2.)); same("setToConstant", densify(*N).data(), e); N->setToZero(); same("setToZero", densify(*N).data(), V(m*n, 0.)); }
    { D W(m, n); W.setToConstant(9.); M->copy_to(W); if(m*n) same("copy_to dense", W.local_data(), A); I ir(z+1), jc(z+1); V va(z+1); M->copy_to(ir.data(), jc.data(), va.data()); V e(m*n, 0.); for(int k = 0; k < z; k++) e[ir[k]*n+jc[k]] += va[k]; same("copy_to arrays", e.data(), A); }
    bool dg = m == n; for(auto& p : S.pos) dg = dg && p.first == p.second; require("is_diagonal", M->is_diagonal() == dg);
    if(m == n) { hiopVectorPar d(n); M->extract_diagonal(d); V e(n); for(int i = 0; i < n; i++) e[i] = A[i*n+i]; same("extract_diagonal", d.local_data(), e); }
    same("operand", densify(*M).data(), A);
    done(cat("nonzeros ", vstr(v), " in ", id)); return nfails() < 20; });
  V v = gen(z); V A = S.dn(v);
  for(int i = 0; i < z; i++) for(double b : {NaN, HUGE_VAL, 1e300}) { V w(v); w[i] = b; require("isfinite", trip(S, w)->isfinite() == (b == 1e300)); done(cat("nonzero ", i)); }
  // sorting: every rotation and reversal of the order
  for(int r = 0; r < z; r++) for(int rev = 0; rev < 2; rev++) { Sp Q = S; V w(z); for(int i = 0; i < z; i++) { int j = rev ? (r + z - i) % z : (r + i) % z; Q.pos[i] = S.pos[j]; w[i] = v[j]; } auto M = trip(Q, w); M->sort(); require("sort: not in order", sorted(*M)); same("sort", densify(*M).data(), A); done(cat("rotation ", r, rev ? " reversed" : "")); }
  // selected rows (strictly increasing indexes, as the equalities and inequalities of the problem are selected)
  for(int mask = 0; mask < (1 << m); mask++) { I rows; for(int i = 0; i < m; i++) if((mask >> i) & 1) rows.push_back(i); int c = 0; for(auto& p : S.pos) c += (mask >> p.first) & 1;
    T N((int)rows.size(), n, c); auto M = trip(S, v); N.copyRowsFrom(*M, rows.data(), (int)rows.size()); V e; for(int r : rows) for(int j = 0; j < n; j++) e.push_back(A[r*n+j]); same("copyRowsFrom", densify(N).data(), e); require("copyRowsFrom: order", sorted(N)); done(cat("rows ", vstr(rows))); }
  // placing (parts of) the matrix in a larger one
  for(int r0 = 0; r0 <= m; r0++) for(int k = 0; r0 + k <= m; k++) for(int rd = 0; rd <= 1; rd++) { int c = 0; for(auto& p : S.pos) c += p.first >= r0 && p.first < r0+k;
    T N(k+rd+1, n+1, z+2); for(int i = 0; i < z+2; i++) { N.i_row()[i] = k+rd; N.j_col()[i] = n; N.M()[i] = i == 0 ? 5. : 0.; } auto M = trip(S, v); N.copyRowsBlockFrom(*M, r0, k, rd, 1);
    V e((k+rd+1)*(n+1), 0.); e.back() = 5.; for(int i = 0; i < k; i++) for(int j = 0; j < n; j++) e[(rd+i)*(n+1)+j] = A[(r0+i)*n+j]; same("copyRowsBlockFrom", densify(N).data(), e); (void)c; done(cat("rows ", r0, "+", k, " to ", rd)); }
  for(int r0 = 0; r0 <= 1; r0++) for(int c0 = 0; c0 <= 1; c0++) for(int off = 0; off < 2; off++) for(int tr = 0; tr < 2; tr++) {
    int mm = (tr ? n : m), nn = (tr ? m : n), Mr = mm+r0+1, Nc = nn+c0+1; T N(Mr, Nc, z+2); for(int i = 0; i < z+2; i++) { N.i_row()[i] = Mr-1; N.j_col()[i] = Nc-1; N.M()[i] = i == 0 ? 5. : 0.; }
    auto M = trip(S, v); if(tr) N.copySubmatrixFromTrans(*M, r0, c0, 1, off); else N.copySubmatrixFrom(*M, r0, c0, 1, off);
    V e(Mr*Nc, 0.); e.back() = 5.; for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) if(!off || i != j) e[(r0 + (tr ? j : i))*Nc + c0 + (tr ? i : j)] = A[i*n+j];
    same(tr ? "copySubmatrixFromTrans" : "copySubmatrixFrom", densify(N).data(), e); done(cat("at ", r0, ",", c0, " offdiag ", off)); }
  // dense symmetric targets
  for(int N = m+n; N <= m+n+1; N++) for(double al : COEF) { V W(N*N); for(int i = 0; i < N*N; i++) W[i] = 0.25*i-1; auto M = trip(S, v), w0 = trip(S, v);
    for(int r0 = 0; r0 + n <= N; r0++) for(int c0 = 0; c0 + m <= N; c0++) { bool up = true; for(auto& p : S.pos) up = up && p.second+r0 <= p.first+c0; if(!up) continue;
      auto w = dense(N, N, W.data()); V e(W); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) e[(r0+j)*N+c0+i] += al*A[i*n+j]; M->transAddToSymDenseMatrixUpperTriangle(r0, c0, al, *w); if(N) same("transAddToSymDenseMatrixUpperTriangle", w->local_data(), e); done(cat("at ", r0, ",", c0)); }
    for(int s = 0; s + m <= N; s++) { V d(n); for(int i = 0; i < n; i++) d[i] = 0.5*(i+1); auto dv = vec(n, d.data()); auto w = dense(N, N, W.data()); V e(W);
      for(int i = 0; i < m; i++) for(int j = i; j < m; j++) { double a = 0; for(int l = 0; l < n; l++) a += A[i*n+l]/d[l]*A[j*n+l]; e[(s+i)*N+s+j] += al*a; }
      M->addMDinvMtransToDiagBlockOfSymDeMatUTri(s, al, *dv, *w); if(N) same("addMDinvMtransToDiagBlockOfSymDeMatUTri", w->local_data(), e); done(cat("at ", s)); }
  }
  // diagonals placed in the nonzeros
  if(m == n && n > 0 && z == 0) for(int st = 0; st <= n; st++) for(int k = 0; st + k <= n; k++) { V d = gen(k+1, 3.); auto dv = vec(k+1, d.data());
    { T N(n, n, k+1); N.i_row()[0] = 0; N.j_col()[0] = 0; N.M()[0] = 0; N.copySubDiagonalFrom(st, k, *dv, 1, -2.); V e(n*n, 0.); for(int i = 0; i < k; i++) e[(st+i)*n+st+i] = -2*d[i]; if(n) same("copySubDiagonalFrom", densify(N).data(), e); }
    { T N(n, n, k+1); N.i_row()[0] = 0; N.j_col()[0] = 0; N.M()[0] = 0; N.setSubDiagonalTo(st, k, 4., 1); V e(n*n, 0.); for(int i = 0; i < k; i++) e[(st+i)*n+st+i] = 4; if(n) same("setSubDiagonalTo", densify(N).data(), e); }
    done(cat("start ", st, " count ", k)); }
  if(z == 0) for(int k = 0; k <= std::min(m, n); k++) for(int r0 = 0; r0 + k <= m; r0++) for(int c0 = 0; c0 + k <= n; c0++) {
    auto mk = [&]() { std::unique_ptr<T> N(new T(m, n, k+1)); N->i_row()[0] = N->j_col()[0] = 0; N->M()[0] = 0; return N; };
    if(m*n) { auto N = mk(); N->copyDiagMatrixToSubblock(6., r0, c0, 1, k); V e(m*n, 0.); for(int i = 0; i < k; i++) e[(r0+i)*n+c0+i] = 6; same("copyDiagMatrixToSubblock", densify(*N).data(), e); done(cat("at ", r0, ",", c0)); }
    for(int L = k; L <= 4; L++) for(int pat = 0; pat < (1 << L); pat++) if(__builtin_popcount(pat) == k && m*n) { V ix(L), d = gen(L, 2.); for(int i = 0; i < L; i++) ix[i] = (pat >> i) & 1; auto xv = vec(L, ix.data()), dv = vec(L, d.data());
      { auto N = mk(); N->copyDiagMatrixToSubblock_w_pattern(*dv, r0, c0, 1, k, *xv); V e(m*n, 0.); int f = 0; for(int i = 0; i < L; i++) if(ix[i]) { e[(r0+f)*n+c0+f] = d[i]; f++; } same("copyDiagMatrixToSubblock_w_pattern", densify(*N).data(), e); }
      if(L + r0 <= m) { auto N = mk(); N->setSubmatrixToConstantDiag_w_colpattern(-3., r0, c0, 1, k, *xv); V e(m*n, 0.); int f = 0; for(int i = 0; i < L; i++) if(ix[i]) e[(r0+i)*n+c0+f++] = -3; same("setSubmatrixToConstantDiag_w_colpattern", densify(*N).data(), e); }
      if(L + c0 <= n) { auto N = mk(); N->setSubmatrixToConstantDiag_w_rowpattern(-3., r0, c0, 1, k, *xv); V e(m*n, 0.); int f = 0; for(int i = 0; i < L; i++) if(ix[i]) e[(r0+f++)*n+c0+i] = -3; same("setSubmatrixToConstantDiag_w_rowpattern", densify(*N).data(), e); }
      done(cat("at ", r0, ",", c0, " pattern ", pat)); } }
  state(hs(mix(m, n), id));
}
// products of two sparse matrices of any patterns
static void triplet_pair(const Sp& A, const Sp& B, const std::string& id)
{
  int m = A.m, k = B.m, n = A.n; V a = gen((int)A.pos.size()), b = gen((int)B.pos.size(), -0.5), Ad = A.dn(a), Bd = B.dn(b); auto M = trip(A, a), N = trip(B, b);
  for(double al : COEF) {
    for(double be : COEF) { V W = gen(m*k, 3.); auto w = dense(m, k, W.data()); M->timesMatTrans(be, *w, al, *N); if(m*k) same("timesMatTrans", w->local_data(), mul(Ad, m, n, false, Bd, k, true, al, be, W)); }
    V d(n); for(int i = 0; i < n; i++) d[i] = 0.5*(i+1); auto dv = vec(n, d.data());
    for(int r0 = 0; r0 <= 1; r0++) { int c0 = r0 + std::max(m-1, 0), S = std::max(c0 + k, r0 + m) + 1; V W(S*S); for(int i = 0; i < S*S; i++) W[i] = 0.25*i-1; V e(W); auto w = dense(S, S, W.data());
      for(int i = 0; i < m; i++) for(int j = 0; j < k; j++) { double s = 0; for(int l = 0; l < n; l++) s += Ad[i*n+l]/d[l]*Bd[j*n+l]; e[(r0+i)*S+c0+j] += al*s; }
      M->addMDinvNtransToSymDeMatUTri(r0, c0, al, *dv, *N, *w); same("addMDinvNtransToSymDeMatUTri", w->local_data(), e); }
  }
  // elastic Jacobian
  { int z = (int)(A.pos.size()+B.pos.size()) + 2*(m+k), NC = n + 2*m + 2*k; T J(m+k, NC, z); I ir(z), jc(z); V va(z); J.set_Jac_FR(*M, *N, ir.data(), jc.data(), nullptr); J.set_Jac_FR(*M, *N, nullptr, nullptr, va.data());
    V E((m+k)*NC, 0.); for(int i = 0; i < m; i++) { for(int j = 0; j < n; j++) E[i*NC+j] = Ad[i*n+j]; E[i*NC+n+i] = -1; E[i*NC+n+m+i] = 1; } for(int i = 0; i < k; i++) { for(int j = 0; j < n; j++) E[(m+i)*NC+j] = Bd[i*n+j]; E[(m+i)*NC+n+2*m+i] = -1; E[(m+i)*NC+n+2*m+k+i] = 1; }
    same("set_Jac_FR", densify(J).data(), E); require("set_Jac_FR: order", sorted(J)); V e((m+k)*NC, 0.); for(int i = 0; i < z; i++) e[ir[i]*NC+jc[i]] += va[i]; same("set_Jac_FR arrays", e.data(), E); }
  done(id);
}
static void sym_triplet(const Sp& S, const std::string& id)
{
  int n = S.n, z = (int)S.pos.size(); if(!begin(cat("symtriplet:", id))) return;
  fill(z, SAL, 250, [&](const V& v) {
    V A = symd(S, v), U = S.dn(v); auto M = strip(S, v); V x = gen(n, 0.5), y = gen(n, 2.);
    for(double al : COEF) for(double be : COEF) for(int tr = 0; tr < 2; tr++) { auto xv = vec(n, x.data()), yv = vec(n, y.data()); V r = mul(A, n, n, false, x, 1, false, al, be, y);
      auto go = [&]() { if(tr) M->transTimesVec(be, *yv, al, *xv); else M->timesVec(be, *yv, al, *xv); }; go(); same("timesVec", yv->local_data(), r); if(be == 0) { yv->setToConstant(NaN); go(); same("timesVec, beta=0 and y not set", yv->local_data(), r); } }
    std::unique_ptr<hiopMatrixSparse> c(M->new_copy()); if(n) { auto xv = vec(n, x.data()), yv = vec(n, y.data()); c->timesVec(0., *yv, 1., *xv); same("new_copy", yv->local_data(), mul(A, n, n, false, x, 1, false, 1, 0, y)); }
    int off = 0; for(auto& p : S.pos) off += p.first != p.second; require("numberOfOffDiagNonzeros", M->numberOfOffDiagNonzeros() == off);
    double mx = 0; for(double e : v) mx = std::max(mx, std::fabs(e)); sameno("max_abs_value", M->max_abs_value(), mx);
    { hiopVectorPar d(n); M->extract_diagonal(d); V e(n); for(int i = 0; i < n; i++) e[i] = A[i*n+i]; same("extract_diagonal", d.local_data(), e); }
    done(cat("nonzeros ", vstr(v), " in ", id)); return nfails() < 20; });
  V v = gen(z), A = symd(S, v), U = S.dn(v); auto M = strip(S, v);
  for(double al : COEF) {
    for(int N = n; N <= n+2; N++) for(int s = 0; s + n <= N; s++) { V W(N*N); for(int i = 0; i < N*N; i++) W[i] = 0.25*i-1; auto w = dense(N, N, W.data()); V e(W); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) e[(s+i)*N+s+j] += al*U[i*n+j]; M->addUpperTriangleToSymDenseMatrixUpperTriangle(s, al, *w); if(N) same("addUpperTriangleToSymDenseMatrixUpperTriangle", w->local_data(), e); done(cat("at ", s, " of ", N)); }
    for(int ds = 0; ds <= n; ds++) for(int L = 0; L <= n+1; L++) for(int vs = 0; vs <= L; vs++) for(int k = -1; k <= std::min(L-vs, n-ds); k++) { int c = k < 0 ? L-vs : k; if(ds + c > n) continue; V d = gen(L, 1.); V e(d); for(int i = 0; i < c; i++) e[vs+i] += al*A[(ds+i)*n+ds+i];
      auto dv = vec(L, d.data()); M->startingAtAddSubDiagonalToStartingAt(ds, al, *dv, vs, k); same("startingAtAddSubDiagonalToStartingAt", dv->local_data(), e); done(cat("diagonal from ", ds, " to position ", vs, " of ", L, ", count ", k)); }
  }
  // Hessian of the elastic problem
  int off = 0; for(auto& p : S.pos) off += p.first != p.second;
  { int zz = n + off; ST H(n, zz); I ir(zz), jc(zz); V va(zz); V d = gen(n, 4.); auto dv = vec(n, d.data()); H.set_Hess_FR(*M, ir.data(), jc.data(), nullptr, *dv); H.set_Hess_FR(*M, nullptr, nullptr, va.data(), *dv);
    V E(U); for(int i = 0; i < n; i++) E[i*n+i] += d[i]; if(n) { same("set_Hess_FR", densify(H).data(), E); V e(n*n, 0.); for(int i = 0; i < zz; i++) e[ir[i]*n+jc[i]] += va[i]; same("set_Hess_FR arrays", e.data(), E); require("set_Hess_FR: order", sorted(H)); } done(""); }
  state(hs(n, id));
}
// the conversion used for KKT systems: lower triangle in any order, followed by a complete second diagonal
static void to_csr(int n, int mask)
{
  if(!begin(cat("tocsr:", n, "-", mask))) return;
  std::vector<std::pair<int,int>> p; int b = 0; for(int i = 0; i < n; i++) for(int j = 0; j <= i; j++, b++) if((mask >> b) & 1) p.push_back({i, j});
  int z0 = (int)p.size(); 
  for(int rot = 0; rot < std::max(1, z0); rot++) for(int rev = 0; rev < 2; rev++) {
    std::vector<std::pair<int,int>> q(z0); for(int i = 0; i < z0; i++) q[i] = p[rev ? (rot + z0 - i) % z0 : (rot + i) % z0];
    for(int i = 0; i < n; i++) q.push_back({i, i});
    int z = (int)q.size(); T M(n, n, z); V v = gen(z); for(int i = 0; i < z; i++) { M.i_row()[i] = q[i].first; M.j_col()[i] = q[i].second; M.M()[i] = v[i]; }
    int nnz = 0, *rp = nullptr, *jc = nullptr, *c2t = nullptr, *d2c = nullptr; double* va = nullptr; std::unordered_map<int,int> ex;
    M.convert_to_csr_arrays(nnz, &rp, &jc, &va, &c2t, &d2c, ex);
    V A(n*n, 0.), E(n*n, 0.); for(int i = 0; i < z; i++) E[q[i].first*n+q[i].second] += v[i];
    bool ord = true; for(int i = 0; i < n; i++) for(int k = rp[i]; k < rp[i+1]; k++) { A[i*n+jc[k]] += va[k]; if(k > rp[i] && jc[k] <= jc[k-1]) ord = false; }
    same("convert_to_csr_arrays: matrix", A.data(), E); require("convert_to_csr_arrays: order", ord && rp[0] == 0 && rp[n] == nnz);
    // the maps reproduce the values after an update of the triplet values
    V w = gen(z, 7.); V F(n*n, 0.), B(n*n, 0.); for(int i = 0; i < z; i++) F[q[i].first*n+q[i].second] += w[i];
    for(int i = 0; i < n; i++) for(int k = rp[i]; k < rp[i+1]; k++) B[i*n+jc[k]] = w[c2t[k]];
    for(auto& e : ex) { int r = 0; while(r < n && rp[r+1] <= e.first) r++; if(r < n) B[r*n+jc[e.first]] += w[e.second]; }
    same("convert_to_csr_arrays: index maps", B.data(), F);
    for(int i = 0; i < n; i++) if(d2c[i] != -1) { int k = d2c[i]; require("convert_to_csr_arrays: index of the diagonal", k >= rp[i] && k < rp[i+1] && jc[k] == i); }
    delete[] rp; delete[] jc; delete[] va; delete[] c2t; delete[] d2c;
    done(cat("rotation ", rot, rev ? " reversed" : ""));
  }
  state(mix(n, mask));
}
// ---------------------------------------------------------------- mixed dense-sparse
static void mds(const Sp& S, int nd, const std::string& id)
{
  if(!begin(cat("mds:", id, "-d", nd))) return;
  int m = S.m, ns = S.n, n = ns+nd, z = (int)S.pos.size(); V sv = gen(z), sd = S.dn(sv), dd = gen(m*nd, -1.5);
  auto mk = [&](const V& s, const V& d) { std::unique_ptr<hiopMatrixMDS> M(new hiopMatrixMDS(m, ns, nd, z, "DEFAULT")); for(int i = 0; i < z; i++) { M->sp_irow()[i] = S.pos[i].first; M->sp_jcol()[i] = S.pos[i].second; M->sp_M()[i] = s[i]; } for(int i = 0; i < m*nd; i++) M->de_local_data()[i] = d[i]; return M; };
  auto full = [&](const V& s, const V& d) { V a(m*n, 0.), e = S.dn(s); for(int i = 0; i < m; i++) { for(int j = 0; j < ns; j++) a[i*n+j] = e[i*ns+j]; for(int j = 0; j < nd; j++) a[i*n+ns+j] = d[i*nd+j]; } return a; };
  auto get = [&](hiopMatrixMDS& M) { V s(M.sp_M(), M.sp_M()+z), d; if(m*nd) d.assign(M.de_local_data(), M.de_local_data()+m*nd); return full(s, d); };
  auto M = mk(sv, dd); V A = full(sv, dd), x = gen(n, 0.5), y = gen(m, 2.); require("shape", M->m() == m && M->n() == n && M->n_sp() == ns && M->n_de() == nd && M->sp_nnz() == z);
  V sv2 = gen(z, -3.), dd2 = gen(m*nd, 2.5); auto M2 = mk(sv2, dd2); V A2 = full(sv2, dd2);
  for(double al : COEF) {
    for(double be : COEF) {
      { auto xv = vec(n, x.data()), yv = vec(m, y.data()); M->timesVec(be, *yv, al, *xv); V r = mul(A, m, n, false, x, 1, false, al, be, y); same("timesVec", yv->local_data(), r); if(be == 0) { yv->setToConstant(NaN); M->timesVec(be, *yv, al, *xv); same("timesVec, beta=0 and y not set", yv->local_data(), r); } }
      { auto xv = vec(n, x.data()), yv = vec(m, y.data()); M->transTimesVec(be, *xv, al, *yv); V r = mul(A, n, m, true, y, 1, false, al, be, x); same("transTimesVec", xv->local_data(), r); }
      { V W = gen(m*m, 3.); auto w = dense(m, m, W.data()); M->timesMatTrans(be, *w, al, *M2); if(m) same("timesMatTrans", w->local_data(), mul(A, m, n, false, A2, m, true, al, be, W)); }
      done(cat("alpha=", al, " beta=", be)); }
    int N = m+n+1; V W(N*N); for(int i = 0; i < N*N; i++) W[i] = 0.25*i-1; for(int r0 = 0; r0 + n <= N; r0++) for(int c0 = 0; c0 + m <= N; c0++) if(n == 0 || r0+n-1 <= c0) { auto w = dense(N, N, W.data()); V e(W); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) e[(r0+j)*N+c0+i] += al*A[i*n+j]; M->transAddToSymDenseMatrixUpperTriangle(r0, c0, al, *w); same("transAddToSymDenseMatrixUpperTriangle", w->local_data(), e); done(cat("at ", r0, ",", c0)); }
  }
  double mx = 0; V rm(m, 0.), sc = gen(m, 0.5), As(A), Ai(A); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) { double a = std::fabs(A[i*n+j]); mx = std::max(mx, a); rm[i] = std::max(rm[i], a); As[i*n+j] *= sc[i]; Ai[i*n+j] /= sc[i]; }
  sameno("max_abs_value", M->max_abs_value(), mx); { hiopVectorPar r(m); M->row_max_abs_value(r); same("row_max_abs_value", r.local_data(), rm); }
  { auto N = mk(sv, dd); auto s = vec(m, sc.data()); N->scale_row(*s, false); same("scale_row", get(*N).data(), As); N = mk(sv, dd); N->scale_row(*s, true); same("scale_row, inverse", get(*N).data(), Ai); }
  require("isfinite", M->isfinite());
  if(m*nd) { V d(dd); d[m*nd-1] = NaN; require("isfinite (dense part)", !mk(sv, d)->isfinite()); } if(z) { V s(sv); s[z-1] = HUGE_VAL; require("isfinite (sparse part)", !mk(s, dd)->isfinite()); }
  { std::unique_ptr<hiopMatrix> c(M->new_copy()); same("new_copy", get(dynamic_cast<hiopMatrixMDS&>(*c)).data(), A); c.reset(M->alloc_clone()); require("alloc_clone", c->m() == m && c->n() == n); }
  for(int mask = 0; mask < (1 << m); mask++) { I rows; for(int i = 0; i < m; i++) if((mask >> i) & 1) rows.push_back(i); int c = 0; for(auto& p : S.pos) c += (mask >> p.first) & 1; int k = (int)rows.size();
    hiopMatrixMDS N(k, ns, nd, c, "DEFAULT"); N.copyRowsFrom(*M, rows.data(), k); V xo = gen(n, 0.25), e(k), r; auto xv = vec(n, xo.data()); hiopVectorPar yv(k); yv.setToZero(); N.timesVec(0., yv, 1., *xv); for(int i = 0; i < k; i++) { e[i] = 0; for(int j = 0; j < n; j++) e[i] += A[rows[i]*n+j]*xo[j]; } same("copyRowsFrom (through timesVec)", yv.local_data(), e);
    if(k*nd) { V de(k*nd); for(int i = 0; i < k; i++) for(int j = 0; j < nd; j++) de[i*nd+j] = dd[rows[i]*nd+j]; same("copyRowsFrom (dense part)", N.de_local_data(), de); } done(cat("rows ", vstr(rows))); }
  { // elastic Jacobian with the equalities M and the inequalities M2
    int zz = 2*z + 4*m; hiopMatrixMDS J(2*m, ns+4*m, nd, zz, "DEFAULT"); I ir(zz), jc(zz); V va(zz), jd(2*m*nd); J.set_Jac_FR(*M, *M2, ir.data(), jc.data(), va.data(), jd.data()); int NC = ns+4*m; V E(2*m*NC, 0.), e(2*m*NC, 0.);
    for(int i = 0; i < m; i++) for(int b = 0; b < 2; b++) { V& B = b ? A2 : A; for(int j = 0; j < ns; j++) E[(b*m+i)*NC+j] = B[i*n+j]; E[(b*m+i)*NC+ns+2*b*m+i] = -1; E[(b*m+i)*NC+ns+2*b*m+m+i] = 1; }
    for(int k = 0; k < zz; k++) e[J.sp_irow()[k]*NC+J.sp_jcol()[k]] += J.sp_M()[k]; same("set_Jac_FR (sparse part)", e.data(), E); e.assign(2*m*NC, 0.); for(int k = 0; k < zz; k++) e[ir[k]*NC+jc[k]] += va[k]; same("set_Jac_FR (sparse arrays)", e.data(), E);
    if(m*nd) { V d(dd); d.insert(d.end(), dd2.begin(), dd2.end()); same("set_Jac_FR (dense part)", J.de_local_data(), d); same("set_Jac_FR (dense array)", jd.data(), d); } done("set_Jac_FR"); }
  { auto N = mk(sv, dd); N->setToConstant(2.); same("setToConstant", get(*N).data(), full(V(z, 2.), V(m*nd, 2.))); N->setToZero(); same("setToZero", get(*N).data(), V(m*n, 0.)); done("set"); }
  state(hs(nd, id));
}
static void symmds(const Sp& S, int nd, const std::string& id)
{
  if(!begin(cat("symmds:", id, "-d", nd))) return;
  int ns = S.n, n = ns+nd, z = (int)S.pos.size(); V sv = gen(z), ss = symd(S, sv), su = S.dn(sv), dd(nd*nd); for(int i = 0; i < nd; i++) for(int j = 0; j < nd; j++) dd[i*nd+j] = -1.25 + 0.5*(i+j) + (i == j ? 3 : 0);
  hiopMatrixSymBlockDiagMDS M(ns, nd, z, "DEFAULT"); for(int i = 0; i < z; i++) { M.sp_irow()[i] = S.pos[i].first; M.sp_jcol()[i] = S.pos[i].second; M.sp_M()[i] = sv[i]; } for(int i = 0; i < nd*nd; i++) M.de_local_data()[i] = dd[i];
  V A(n*n, 0.), U(n*n, 0.); for(int i = 0; i < ns; i++) for(int j = 0; j < ns; j++) { A[i*n+j] = ss[i*ns+j]; U[i*n+j] = su[i*ns+j]; } for(int i = 0; i < nd; i++) for(int j = 0; j < nd; j++) { A[(ns+i)*n+ns+j] = dd[i*nd+j]; if(j >= i) U[(ns+i)*n+ns+j] = dd[i*nd+j]; }
  V x = gen(n, 0.5), y = gen(n, 2.); require("shape", M.n() == n && M.m() == n && M.n_sp() == ns && M.n_de() == nd);
  for(double al : COEF) {
    for(double be : COEF) for(int tr = 0; tr < 2; tr++) { auto xv = vec(n, x.data()), yv = vec(n, y.data()); if(tr) M.transTimesVec(be, *yv, al, *xv); else M.timesVec(be, *yv, al, *xv); same("timesVec", yv->local_data(), mul(A, n, n, false, x, 1, false, al, be, y)); done(cat("alpha=", al, " beta=", be)); }
    for(int N = n; N <= n+1; N++) for(int s = 0; s + n <= N; s++) { V W(N*N); for(int i = 0; i < N*N; i++) W[i] = 0.25*i-1; auto w = dense(N, N, W.data()); V e(W); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) e[(s+i)*N+s+j] += al*U[i*n+j]; M.addUpperTriangleToSymDenseMatrixUpperTriangle(s, al, *w); if(N) same("addUpperTriangleToSymDenseMatrixUpperTriangle", w->local_data(), e); done(cat("at ", s)); }
  }
  double mx = 0; for(double a : A) mx = std::max(mx, std::fabs(a)); sameno("max_abs_value", M.max_abs_value(), mx); require("isfinite", M.isfinite());
  { std::unique_ptr<hiopMatrix> c(M.new_copy()); auto xv = vec(n, x.data()), yv = vec(n, y.data()); c->timesVec(0., *yv, 1., *xv); same("new_copy", yv->local_data(), mul(A, n, n, false, x, 1, false, 1, 0, y)); }
  { // Hessian of the elastic problem: diagonals added to both blocks
    int off = 0; for(auto& p : S.pos) off += p.first != p.second; int zz = ns + off; hiopMatrixSymBlockDiagMDS H(ns, nd, zz, "DEFAULT"); I ir(zz), jc(zz); V va(zz), hd_(nd*nd); V a = gen(ns, 4.), b = gen(nd, 6.); auto av = vec(ns, a.data()), bv = vec(nd, b.data());
    H.set_Hess_FR(M, ir.data(), jc.data(), va.data(), hd_.data(), *av, *bv); V E(su), e(ns*ns, 0.), d(dd); for(int i = 0; i < ns; i++) E[i*ns+i] += a[i]; for(int i = 0; i < nd; i++) d[i*nd+i] += b[i];
    for(int k = 0; k < zz; k++) e[H.sp_irow()[k]*ns+H.sp_jcol()[k]] += H.sp_M()[k]; if(zz) same("set_Hess_FR (sparse)", e.data(), E); if(nd) { same("set_Hess_FR (dense)", H.de_local_data(), d); same("set_Hess_FR (dense array)", hd_.data(), d); } done("set_Hess_FR"); }
  done(""); state(hs(nd, id));
}

void mc_body()
{
  bool th = opt.thorough; if(th) LIM = 20000; int mx = th ? 4 : 3;
  for(int m = 0; m <= mx; m++) for(int n = 0; n <= mx; n++) { dense_products(m, n); dense_other(m, n); }
  for(int P = 1; P <= (th ? 4 : 3); P++) for(int m = 0; m <= 2; m++) for(int n = 0; n <= 3; n++) for(int k = 0; k <= 2; k++) partitions(n, P, [&](const std::vector<index_type>& p) {
    if(begin(cat("dense:dist:", m, "x", n, "k", k, ":", vstr(p)))) dense_dist(m, n, k, p); });
  int pm = th ? 12 : 9;
  for(int m = 0; m <= 4; m++) for(int n = 0; n <= 4; n++) if(m*n <= pm) for(int mask = 0; mask < (1 << (m*n)); mask++) triplet_basic(pattern(m, n, mask), cat(m, "x", n, "-", mask));
  for(int n = 0; n <= 3; n++) for(int m = 0; m <= 3; m++) for(int k = 0; k <= 3; k++) if((m+k)*n <= (th ? 14 : 12)) for(int a = 0; a < (1 << (m*n)); a++) if(begin(cat("pair:", m, "x", n, "-", a, ":", k))) { for(int b = 0; b < (1 << (k*n)); b++) triplet_pair(pattern(m, n, a), pattern(k, n, b), cat("patterns ", a, " and ", b)); state(mix(mix(mix(m, n), k), a)); }
  for(int n = 0; n <= (th ? 4 : 3); n++) for(int mask = 0; mask < (1 << (n*(n+1)/2)); mask++) { sym_triplet(upper(n, mask), cat(n, "-", mask)); to_csr(n, mask); }
  for(int m = 0; m <= 3; m++) for(int n = 0; n <= 3; n++) if(m*n <= (th ? 9 : 6)) for(int mask = 0; mask < (1 << (m*n)); mask++) for(int nd = 0; nd <= 2; nd++) mds(pattern(m, n, mask), nd, cat(m, "x", n, "-", mask));
  for(int n = 0; n <= 3; n++) for(int mask = 0; mask < (1 << (n*(n+1)/2)); mask++) for(int nd = 0; nd <= 2; nd++) symmds(upper(n, mask), nd, cat(n, "-", mask));
}
