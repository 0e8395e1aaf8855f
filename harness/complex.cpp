// Complex matrices, the complex sparse LU wrapper and the Kron reduction: every small pattern and index split against plain complex arithmetic.
#include "mc.hpp"
#include "hiopMatrixComplexSparseTriplet.hpp"
#include "hiopMatrixComplexDense.hpp"
#include "hiopLinSolverUMFPACKZ.hpp"
#include "hiopKronReduction.hpp"
#include <memory>
#include <malloc.h>
#include <complex>
#include <set>
using namespace hiop; using namespace mc; using std::string; using std::vector;
typedef std::complex<double> Z; typedef hiopMatrixComplexSparseTriplet SP; typedef hiopMatrixComplexDense DN;
typedef std::unique_ptr<SP> PS; typedef std::unique_ptr<DN> PD;

struct D { int m, n; vector<Z> a; vector<char> p;
  D(int m_ = 0, int n_ = 0) : m(m_), n(n_), a((size_t)m_*n_, 0.), p((size_t)m_*n_, 0) {}
  Z& v(int i, int j) { return a[(size_t)i*n+j]; } Z v(int i, int j) const { return a[(size_t)i*n+j]; }
  char& at(int i, int j) { return p[(size_t)i*n+j]; } char at(int i, int j) const { return p[(size_t)i*n+j]; }
  int nnz() const { int k = 0; for(char c : p) k += c; return k; } };
static Z val(int k) { static const Z V[] = {{2,1},{-3,0},{0,5},{1,-1},{-7,2},{4,4},{0,-1},{3,-2},{-1,0},{6,1},{-2,-3},{1,0},{5,-4}}; return V[((k % 13) + 13) % 13]; }
static D make(int m, int n, unsigned mask, int salt) { D d(m, n); for(int k = 0; k < m*n; k++) if(mask >> k & 1) { d.p[k] = 1; d.a[k] = val(k*5 + salt); } return d; }
static string show(const D& d) { string s = cat(d.m, "x", d.n, "{"); for(int i = 0; i < d.m; i++) { for(int j = 0; j < d.n; j++) s += d.at(i,j) ? cat(d.v(i,j), " ") : string(". "); s += i+1 < d.m ? "/ " : ""; } return s + "}"; }
static PS sparse(const D& d) { PS t(new SP(d.m, d.n, d.nnz())); vector<int> ir, jc; vector<Z> va; for(int i = 0; i < d.m; i++) for(int j = 0; j < d.n; j++) if(d.at(i,j)) { ir.push_back(i); jc.push_back(j); va.push_back(d.v(i,j)); } ir.push_back(0); jc.push_back(0); va.push_back(0.); t->copyFrom(ir.data(), jc.data(), va.data()); return t; }
static PD dense(const D& d) { PD t(new DN(d.m, d.n)); for(int i = 0; i < d.m; i++) for(int j = 0; j < d.n; j++) t->get_M()[i][j] = d.v(i,j); return t; }
// sparse result equals d, entries sorted by row then column, none twice
static string differs(SP& s, const D& d)
{
  if((int)s.m() != d.m || (int)s.n() != d.n) return cat("size ", s.m(), "x", s.n());
  if((int)s.numberOfNonzeros() != d.nnz()) return cat(s.numberOfNonzeros(), " nonzeros, expected ", d.nnz());
  int k = 0; for(int i = 0; i < d.m; i++) for(int j = 0; j < d.n; j++) if(d.at(i,j)) {
    if(s.storage()->i_row()[k] != i || s.storage()->j_col()[k] != j) return cat("nonzero ", k, " is at (", s.storage()->i_row()[k], ",", s.storage()->j_col()[k], "), expected (", i, ",", j, ")");
    if(s.storage()->M()[k] != d.v(i,j)) return cat("entry (", i, ",", j, ") is ", s.storage()->M()[k], ", expected ", d.v(i,j)); k++; }
  return "";
}
static string differs(DN& s, const D& d)
{ if((int)s.m() != d.m || (int)s.n() != d.n) return cat("size ", s.m(), "x", s.n());
  for(int i = 0; i < d.m; i++) for(int j = 0; j < d.n; j++) if(s.get_M()[i][j] != d.v(i,j)) return cat("entry (", i, ",", j, ") is ", s.get_M()[i][j], ", expected ", d.v(i,j)); return ""; }
template<class M> static bool expect(const char* what, M& s, const D& d, const string& ctx) { trans(); string e = differs(s, d); if(e.empty()) return true; fail(what, cat(ctx, ": ", e)); return false; }
static D slice(const D& d, const vector<int>& r, const vector<int>& c) { D s(r.size(), c.size()); for(size_t i = 0; i < r.size(); i++) for(size_t j = 0; j < c.size(); j++) { s.at(i,j) = d.at(r[i],c[j]); s.v(i,j) = d.v(r[i],c[j]); } return s; }
static D upper(const D& d) { D u = d; for(int i = 0; i < d.m; i++) for(int j = 0; j < i && j < d.n; j++) { u.at(i,j) = 0; u.v(i,j) = 0.; } return u; }
static D symm(int n, unsigned mask, int salt) { D d(n, n); int k = 0; for(int i = 0; i < n; i++) for(int j = i; j < n; j++, k++) if(mask >> k & 1) { d.at(i,j) = d.at(j,i) = 1; d.v(i,j) = d.v(j,i) = val(k*3 + salt); } return d; }
static vector<int> subset(int n, unsigned s) { vector<int> r; for(int i = 0; i < n; i++) if(s >> i & 1) r.push_back(i); return r; }
static string ids(const vector<int>& v) { return vstr(v); }

static bool slices(const D& d)
{
  PS s = sparse(d); string ctx = show(d); state(hs(1, ctx));
  for(unsigned a = 0; a < (1u << d.m); a++) for(unsigned b = 0; b < (1u << d.n); b++) { auto r = subset(d.m, a), c = subset(d.n, b); PS q(s->new_slice(r.data(), r.size(), c.data(), c.size())); if(!expect("new_slice", *q, slice(d, r, c), cat(ctx, ids(r), ids(c)))) return false; trace(); }
  return expect("source-changed", *s, d, ctx);
}
static bool symslices(const D& d)
{
  D u = upper(d); PS s = sparse(u); string ctx = "symmetric " + show(u); state(hs(2, ctx));
  for(unsigned a = 0; a < (1u << d.m); a++) { auto r = subset(d.m, a);
    { PS q(s->new_sliceFromSymToSym(r.data(), r.size())); if(!expect("new_sliceFromSymToSym", *q, upper(slice(d, r, r)), cat(ctx, ids(r)))) return false; trace(); }
    for(unsigned b = 0; b < (1u << d.n); b++) { auto c = subset(d.n, b); PS q(s->new_sliceFromSym(r.data(), r.size(), c.data(), c.size())); if(!expect("new_sliceFromSym", *q, slice(d, r, c), cat(ctx, ids(r), ids(c)))) return false; trace(); } }
  return expect("source-changed", *s, u, ctx);
}
static const Z SC[] = {{1,0},{0,0},{-2,0},{0,1},{3,-1}};
static bool same(Z a, Z b) { return std::abs(a-b) <= 1e-12*(1 + std::abs(b)); }
static bool ops(const D& d)
{
  string ctx = show(d); PS s = sparse(d); PD w = dense(d); state(hs(3, ctx)); double mx = 0; for(Z z : d.a) mx = std::max(mx, std::abs(z));
  if(!(std::fabs(s->max_abs_value() - mx) <= 1e-14*mx)) { fail("sparse-max_abs_value", cat(ctx, ": ", s->max_abs_value())); return false; }
  if(!(std::fabs(w->max_abs_value() - mx) <= 1e-14*mx)) { fail("dense-max_abs_value", cat(ctx, ": ", w->max_abs_value())); return false; }
  // products with vectors
  vector<Z> x(d.n), y0(d.m); for(int j = 0; j < d.n; j++) x[j] = val(j + 7); for(int i = 0; i < d.m; i++) y0[i] = val(2*i + 1);
  for(double be : {1., 0., -2.}) for(double al : {1., 0., 3.}) {
    vector<Z> y = y0, e(d.m); for(int i = 0; i < d.m; i++) { e[i] = be*y0[i]; for(int j = 0; j < d.n; j++) e[i] += al*d.v(i,j)*x[j]; if(be == 0) y[i] = Z(NAN, 1); }
    y.push_back(Z(9,9)); s->timesVec(be, y.data(), al, x.data()); trans(); for(int i = 0; i < d.m; i++) if(!same(y[i], e[i]) || y[d.m] != Z(9,9)) { fail("sparse-timesVec", cat(ctx, " beta=", be, " alpha=", al, ": ", y[i], " expected ", e[i])); return false; } }
  for(Z be : SC) for(Z al : SC) { vector<Z> y = y0, e(d.m); for(int i = 0; i < d.m; i++) { e[i] = be*y0[i]; for(int j = 0; j < d.n; j++) e[i] += al*d.v(i,j)*x[j]; }
    y.push_back(Z(9,9)); w->timesVec(be, y.data(), al, x.data()); trans(); for(int i = 0; i < d.m; i++) if(!same(y[i], e[i]) || y[d.m] != Z(9,9)) { fail("dense-timesVec", cat(ctx, " beta=", be, " alpha=", al, ": ", y[i], " expected ", e[i])); return false; } }
  // W = beta*W + alpha*S^T*X
  for(int k = 0; k <= 3; k++) for(double be : {1., 0., -2.}) for(double al : {1., 0., 3.}) {
    D X(d.m, k), W(d.n, k); for(int q = 0; q < d.m*k; q++) X.a[q] = val(q + 3); for(int q = 0; q < d.n*k; q++) W.a[q] = val(3*q + 2);
    PD px = dense(X), pw = dense(W); s->transTimesMat(be, *pw, al, *px); for(int i = 0; i < d.n; i++) for(int j = 0; j < k; j++) { Z t = be*W.v(i,j); for(int q = 0; q < d.m; q++) t += al*d.v(q,i)*X.v(q,j); W.v(i,j) = t; }
    if(!expect("transTimesMat", *pw, W, cat(ctx, " columns=", k, " beta=", be, " alpha=", al)) || !expect("source-changed", *px, X, ctx)) return false; }
  // copies and constants
  { PD q(w->new_copy()); if(!expect("new_copy", *q, d, ctx)) return false; q->negate(); D e = d; for(Z& z : e.a) z = -z; if(!expect("negate", *q, e, ctx)) return false;
    PD c(w->alloc_clone()); c->copyFrom(*w); if(!expect("copyFrom", *c, d, ctx)) return false; vector<Z> buf = e.a; buf.push_back(0.); c->copyFrom(buf.data()); if(!expect("copyFrom-buffer", *c, e, ctx)) return false;
    c->setToConstant(2.5); for(Z& z : e.a) z = 2.5; if(!expect("setToConstant", *c, e, ctx)) return false; Z k(1, -2); c->setToConstant(k); for(Z& z : e.a) z = k; if(!expect("setToConstant", *c, e, ctx)) return false; c->setToZero(); for(Z& z : e.a) z = 0; if(!expect("setToZero", *c, e, ctx)) return false;
    if(!expect("copy-aliases", *w, d, ctx)) return false;
    for(Z al : SC) { D E = make(d.m, d.n, ~0u, 4), F = E; PD t = dense(E); t->addMatrix(al, *w); for(int q = 0; q < d.m*d.n; q++) F.a[q] = E.a[q] + al*d.a[q]; if(!expect("addMatrix", *t, F, cat(ctx, " alpha=", al))) return false; }
    for(double al : {1., 0., -3.}) { D E = make(d.m, d.n, ~0u, 4), F = E; PD t = dense(E); t->addMatrix(al, *w); for(int q = 0; q < d.m*d.n; q++) F.a[q] = E.a[q] + al*d.a[q]; if(!expect("addMatrix", *t, F, cat(ctx, " alpha=", al))) return false; }
    if(!w->isfinite()) { fail("isfinite", ctx); return false; } for(int q = 0; q < d.m*d.n; q++) for(Z bad : {Z(NAN,0), Z(0,INFINITY), Z(-INFINITY,1), Z(1,NAN)}) { D B = d; B.a[q] = bad; PD b = dense(B); if(b->isfinite()) { fail("isfinite", cat(ctx, " with ", bad)); return false; } }
    for(unsigned r = 0; r < (1u << d.m); r++) { auto rows = subset(d.m, r); PD t(new DN(rows.size(), d.n)); vector<int> cols(d.n); for(int j = 0; j < d.n; j++) cols[j] = j; t->copyRowsFrom(*w, rows.data(), rows.size()); if(!expect("copyRowsFrom", *t, slice(d, rows, cols), ctx)) return false; } }
  { PS t = sparse(d); D e = d; t->setToConstant(2.); for(size_t k = 0; k < e.a.size(); k++) if(e.p[k]) e.a[k] = 2.; if(!expect("sparse-setToConstant", *t, e, ctx)) return false; t->setToConstant(Z(1,3)); for(size_t k = 0; k < e.a.size(); k++) if(e.p[k]) e.a[k] = Z(1,3); if(!expect("sparse-setToConstant", *t, e, ctx)) return false; t->setToZero(); for(Z& z : e.a) z = 0; if(!expect("sparse-setToZero", *t, e, ctx)) return false; }
  if(d.m == d.n) for(Z al : SC) {
    D E = make(d.m, d.n, ~0u, 4), F = E; PD t = dense(E); t->addSparseMatrix(al, *s); for(int q = 0; q < d.m*d.n; q++) F.a[q] = E.a[q] + al*d.a[q]; if(!expect("addSparseMatrix", *t, F, cat(ctx, " alpha=", al))) return false;
    D u = upper(d); PS us = sparse(u); t = dense(E); t->addSparseSymUpperTriangleToSymDenseMatrixUpperTriangle(al, *us); for(int q = 0; q < d.m*d.n; q++) F.a[q] = E.a[q] + al*u.a[q]; if(!expect("addSparseSymUpperTriangle", *t, F, cat(ctx, " alpha=", al))) return false; }
  if(d.m == d.n) { bool sy = true; for(int i = 0; i < d.m; i++) for(int j = 0; j < i; j++) sy = sy && d.v(i,j) == d.v(j,i); if(w->assertSymmetry() != sy) { fail("assertSymmetry", ctx); return false; } }
  if(!expect("source-changed", *s, d, ctx) || !expect("source-changed", *w, d, ctx)) return false;
  trace(); return true;
}
// triplets in any order, with duplicates
static void duplicates(int m, int n, int len)
{
  vector<int> pos(len, 0), radix(len, m*n); if(m*n == 0 && len) return;
  do {
    SP t(m, n, len); vector<int> ir(len+1), jc(len+1); vector<Z> va(len+1); D d(m, n), srt(m, n); vector<vector<int>> order;
    for(int k = 0; k < len; k++) { ir[k] = pos[k]/n; jc[k] = pos[k]%n; va[k] = val(k); d.p[pos[k]] = 1; d.a[pos[k]] += va[k]; }
    t.copyFrom(ir.data(), jc.data(), va.data()); t.storage()->sort_indexes(); trans(); string ctx = cat(m, "x", n, " triplets at ", vstr(pos)); state(hs(5, ctx));
    std::multiset<std::pair<int,std::pair<double,double>>> A, B; bool ok = true; for(int k = 0; k < len; k++) { A.insert({pos[k], {va[k].real(), va[k].imag()}}); int q = t.storage()->i_row()[k]*n + t.storage()->j_col()[k]; Z z = t.storage()->M()[k]; B.insert({q, {z.real(), z.imag()}}); if(k && q < t.storage()->i_row()[k-1]*n + t.storage()->j_col()[k-1]) ok = false; }
    if(!ok || A != B) { fail("sort_indexes", ctx); return; }
    t.storage()->sum_up_duplicates(); if(!expect("sum_up_duplicates", t, d, ctx)) return; trace();
  } while(len && advance(pos, radix));
}

// ---- factorization
typedef std::complex<long double> LZ;
static Z det(const D& d) { int n = d.n; if(n == 0) return 1.; if(n == 1) return d.v(0,0); Z s = 0; for(int j = 0; j < n; j++) { Z c = d.v(0,j); if(c == 0.) continue; D q(n-1, n-1); for(int i = 1; i < n; i++) for(int k = 0, t = 0; k < n; k++) if(k != j) q.v(i-1,t++) = d.v(i,k); s += (j % 2 ? -1. : 1.)*c*det(q); } return s; } // exact: Gaussian integers
static D solve(D A, D B) // Gaussian elimination, long double
{ int n = A.n; vector<LZ> a(n*n), b(n*B.n); for(int k = 0; k < n*n; k++) a[k] = LZ(A.a[k]); for(int k = 0; k < n*B.n; k++) b[k] = LZ(B.a[k]); int R = B.n;
  for(int c = 0; c < n; c++) { int p = c; for(int i = c; i < n; i++) if(std::abs(a[i*n+c]) > std::abs(a[p*n+c])) p = i; if(p != c) { for(int j = 0; j < n; j++) std::swap(a[p*n+j], a[c*n+j]); for(int j = 0; j < R; j++) std::swap(b[p*R+j], b[c*R+j]); }
    for(int i = c+1; i < n; i++) { LZ f = a[i*n+c]/a[c*n+c]; for(int j = c; j < n; j++) a[i*n+j] -= f*a[c*n+j]; for(int j = 0; j < R; j++) b[i*R+j] -= f*b[c*R+j]; } }
  for(int j = 0; j < R; j++) for(int i = n-1; i >= 0; i--) { LZ t = b[i*R+j]; for(int k = i+1; k < n; k++) t -= a[i*n+k]*b[k*R+j]; b[i*R+j] = t/a[i*n+i]; }
  D X(n, R); for(int k = 0; k < n*R; k++) X.a[k] = Z(b[k]); return X; }
static bool close(const D& X, const D& E, double tol, string& why) { double s = 1; for(Z z : E.a) s = std::max(s, std::abs(z)); for(size_t k = 0; k < X.a.size(); k++) if(!(std::abs(X.a[k] - E.a[k]) <= tol*s)) { why = cat("entry ", k, " is ", X.a[k], ", expected ", E.a[k]); return false; } return true; }
// backward error of A X = B; also false when X is not finite
static bool backward(const D& A, const D& X, const D& B) { double na = 0, nx = 0, nb = 0; for(Z z : A.a) na = std::max(na, std::abs(z)); for(Z z : X.a) nx = std::max(nx, std::abs(z)); for(Z z : B.a) nb = std::max(nb, std::abs(z));
  for(int i = 0; i < A.m; i++) for(int j = 0; j < B.n; j++) { Z r = B.v(i,j); for(int k = 0; k < A.n; k++) r -= A.v(i,k)*X.v(k,j); if(!(std::abs(r) <= 1e-12*(na*nx*A.n + nb))) return false; } return true; }
static D get(DN& w) { D d(w.m(), w.n()); for(int i = 0; i < d.m; i++) for(int j = 0; j < d.n; j++) d.v(i,j) = w.get_M()[i][j]; return d; }

// one solver object through a sequence of matrices of the same pattern
static bool lu(const D& pat, const vector<D>& seq)
{
  PS s = sparse(pat); hiopLinSolverUMFPACKZ ls(*s); int n = pat.n;
  for(size_t q = 0; q < seq.size(); q++) {
    const D& A = seq[q]; int k = 0; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(A.at(i,j)) s->storage()->M()[k++] = A.v(i,j);
    string ctx = cat("factorization ", q+1, " ", show(A)); state(hs(7, ctx)); Z dt = det(A); int r = ls.matrixChanged(); trans();
    if(dt != 0. && r < 0) { fail("factorization-refused", ctx); return false; }
    if(r < 0) continue;
    D b(n, 1), x(n, 1); for(int i = 0; i < n; i++) b.a[i] = val(i*4 + (int)q);
    if(n) { D b0 = b; bool ok = ls.solve(b.a.data(), x.a.data()); trans(); if(b.a != b0.a) { fail("rhs-changed", ctx); return false; }
      if(dt != 0. && !ok) { fail("solve-refused", ctx); return false; }
      if(ok && !backward(A, x, b)) { fail(dt == 0. ? "singular-accepted" : "solution", cat(ctx, ": ", vstr(x.a))); return false; } }
    for(unsigned c = 0; c <= 3; c++) for(int m = 0; m < (c == 0 ? 1 : c*n <= 4 ? 1 << c*n : 3); m++) { D B = make(n, c, c*n <= 4 ? m : m == 0 ? ~0u : 0x5a5a5u*(m+1), q); PS bs = sparse(B); DN X(n, c); bool ok = ls.solve(*bs, X); D XX = get(X); trans();
      if(dt != 0. && !ok) { fail("solve-refused", ctx); return false; }
      if(ok && !backward(A, XX, B)) { fail(dt == 0. ? "singular-accepted" : "solution", cat(ctx, " right-hand sides ", show(B), ": ", vstr(XX.a))); return false; } }
    trace();
  }
  return true;
}
static void lu_patterns(int n, unsigned part, unsigned parts)
{ for(unsigned m = part; m < (1u << n*n); m += parts) { D a = make(n, n, m, 0), b = make(n, n, m, 5), z = a; for(Z& v : z.a) if(v != 0.) v = 1.; // ones: singular for many patterns
    if(!lu(a, {a, b, a}) || !lu(z, {z, a, z, b})) return; } }

// the reduction on one object, for a list of (matrix, split)
struct Job { D Y; vector<int> aux, non; };
static bool kron(hiopKronReduction& kr, const Job& j, const string& tag)
{
  string ctx = cat(tag, show(j.Y), " auxiliary ", ids(j.aux)); state(hs(11, ctx)); PS Y = sparse(j.Y); int na = j.non.size(), nb = j.aux.size();
  D Ybb = slice(j.Y, j.aux, j.aux), Yba = slice(j.Y, j.aux, j.non), Yaa = slice(j.Y, j.non, j.non), Yab = slice(j.Y, j.non, j.aux); Z dt = det(Ybb); DN red(na, na); for(int i = 0; i < na; i++) for(int k = 0; k < na; k++) red.get_M()[i][k] = Z(77, 5);
  bool ok = kr.go(j.non, j.aux, *Y, red); trans();
  if(dt != 0. && !ok) { fail("reduction-refused", ctx); return false; }
  if(!expect("source-changed", *Y, j.Y, ctx)) return false;
  if(!ok) { trace(); return true; }
  D R = get(red), M = get(const_cast<DN&>(kr.map_nonaux_to_aux())); if(M.m != nb || M.n != na) { fail("map-size", cat(ctx, ": ", M.m, "x", M.n)); return false; }
  D mB = Yba; for(Z& z : mB.a) z = -z; if(!backward(Ybb, M, mB)) { fail(dt == 0. ? "singular-accepted" : "map", cat(ctx, ": ", vstr(M.a))); return false; }
  if(dt != 0.) { D X = solve(Ybb, Yba), E = Yaa; for(int i = 0; i < na; i++) for(int k = 0; k < na; k++) for(int q = 0; q < nb; q++) E.v(i,k) -= Yab.v(i,q)*X.v(q,k); string why; if(!close(R, E, 1e-9, why)) { fail("reduced-matrix", cat(ctx, ": ", why)); return false; } }
  // the voltages at the auxiliary buses follow from the others: with no current injected there, Yba*va + Ybb*vb = 0, and the injections at the others are Yred*va
  vector<Z> va(na), vb(nb, Z(NAN, NAN)); for(int i = 0; i < na; i++) va[i] = val(i + 2); for(Z& z : vb) z = Z(55, 1);
  if(!kr.apply_nonaux_to_aux(va, vb)) { fail("apply-refused", ctx); return false; } trans();
  double s = 1; for(Z z : M.a) s = std::max(s, std::abs(z)); for(int i = 0; i < nb; i++) { Z r = 0; for(int k = 0; k < na; k++) r += Yba.v(i,k)*va[k]; for(int k = 0; k < nb; k++) r += Ybb.v(i,k)*vb[k]; if(!(std::abs(r) <= 1e-9*s*10)) { fail("auxiliary-voltage", cat(ctx, ": ", vstr(vb))); return false; } }
  if(na == 0) for(Z z : vb) if(z != 0.) { fail("auxiliary-voltage", cat(ctx, ": ", vstr(vb))); return false; }
  trace(); return true;
}
static Job job(const D& Y, unsigned aux) { return Job{Y, subset(Y.n, aux), subset(Y.n, ~aux & ((1u << Y.n) - 1))}; }
static D net(int n, unsigned mask, int kind, int salt) // admittance matrix of a small network: full diagonal where kind asks for it
{ D d = symm(n, mask, salt); if(kind == 1) for(int i = 0; i < n; i++) { Z s = 0; for(int j = 0; j < n; j++) if(j != i) s -= d.v(i,j); d.at(i,i) = 1; d.v(i,i) = s; } // rows sum to zero: singular as a whole
  if(kind == 2) for(int i = 0; i < n; i++) { d.at(i,i) = 1; d.v(i,i) = Z(20 + i, -7); } return d; }

static size_t used() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
void mc_body()
{
  for(int m = 0; m <= 3; m++) for(int n = 0; n <= 3; n++) if(begin(cat("ops:", m, "x", n))) for(unsigned s = 0; s < (1u << m*n); s++) if(!ops(make(m, n, s, s % 7))) break;
  for(int m = 0; m <= 4; m++) for(int n = 0; n <= 4; n++) if(m*n <= (opt.thorough ? 16 : 12)) for(unsigned part = 0; part < 8 && part < (1u << m*n); part++) if(begin(cat("slice:", m, "x", n, ":", part))) for(unsigned s = part; s < (1u << m*n); s += 8) if(!slices(make(m, n, s, s % 7))) break;
  for(int n = 0; n <= (opt.thorough ? 5 : 4); n++) for(unsigned part = 0; part < 8 && part < (1u << n*(n+1)/2); part++) if(begin(cat("symslice:", n, ":", part))) { if(n == 4 && part == 3) sample("symmetric 4x4, every pattern of the upper triangle x every set of rows x every set of columns"); for(unsigned s = part; s < (1u << n*(n+1)/2); s += 8) if(!symslices(symm(n, s, s % 7))) break; }
  for(int m = 0; m <= 2; m++) for(int n = 0; n <= 3; n++) for(int len = 0; len <= (opt.thorough ? 6 : 5); len++) if(begin(cat("dup:", m, "x", n, ":", len))) duplicates(m, n, len);
  for(int n = 0; n <= (opt.thorough ? 4 : 3); n++) for(unsigned part = 0; part < 8 && part < (1u << n*n); part++) if(begin(cat("lu:", n, ":", part))) lu_patterns(n, part, 8);
  if(begin("lu-duplicates")) for(int n = 1; n <= 2; n++) for(int len = n; len <= 5; len++) { vector<int> pos(len, 0), radix(len, n*n); // entries given in pieces add up
    do { SP t(n, n, len); vector<int> ir(len), jc(len); vector<Z> va(len); D d(n, n); for(int k = 0; k < len; k++) { ir[k] = pos[k]/n; jc[k] = pos[k]%n; va[k] = val(k); d.p[pos[k]] = 1; d.a[pos[k]] += va[k]; } t.copyFrom(ir.data(), jc.data(), va.data());
      hiopLinSolverUMFPACKZ ls(t); D b(n, 1), x(n, 1); for(int i = 0; i < n; i++) b.a[i] = val(i + 3); bool ok = ls.matrixChanged() >= 0 && ls.solve(b.a.data(), x.a.data()); trans(2); if(det(d) != 0. ? !ok || !backward(d, x, b) : ok && !backward(d, x, b)) { fail(det(d) != 0. ? "solution" : "singular-accepted", cat("summed triplets ", vstr(pos))); break; } trace(); } while(advance(pos, radix)); }
  for(int n = 0; n <= (opt.thorough ? 5 : 4); n++) for(int kind = 0; kind < 3; kind++) for(unsigned part = 0; part < 8 && part < (1u << n*(n+1)/2); part++) if(begin(cat("kron:", n, ":", kind, ":", part))) {
    if(n == 4 && part == 5 && kind == 1) sample("all symmetric 4x4 patterns with rows summing to zero x all 16 splits");
    for(unsigned s = part; s < (1u << n*(n+1)/2); s += 8) { if(kind) { bool dup = false; int k = 0; for(int i = 0; i < n; i++) for(int j = i; j < n; j++, k++) if(i == j && (s >> k & 1)) dup = true; if(dup) continue; } // diagonal is overwritten
      uint64_t f = nfails(); for(unsigned a = 0; a < (1u << n) && f == nfails(); a++) { hiopKronReduction kr; kron(kr, job(net(n, s, kind, s % 7), a), ""); } if(f != nfails()) break; } }
  // one object used for one network after another, of other sizes and splits, singular ones included
  vector<Job> J; for(int n = 1; n <= 3; n++) for(unsigned s = 1; s < (1u << n*(n+1)/2); s += n == 3 ? 7 : 2) for(unsigned a = 0; a < (1u << n); a++) J.push_back(job(net(n, s, s % 3, 1), a));
  for(size_t i = 0; i < J.size(); i++) if(begin(cat("kron-again:", i))) for(auto& q : J) { hiopKronReduction kr; if(!kron(kr, J[i], "") || !kron(kr, q, "second network: ") || !kron(kr, J[i], "third network: ")) break; }
  // nothing is kept: memory does not grow with the number of reductions or factorizations
  if(begin("memory")) {
    D Y = net(4, 0x3ff, 2, 1), S = Y; for(Z& z : S.a) z = 1.; 
    auto round = [&]() { for(unsigned a = 0; a < 16; a++) { hiopKronReduction kr; kron(kr, job(Y, a), ""); hiopKronReduction ks; kron(ks, job(S, a), ""); } PS s = sparse(Y); hiopLinSolverUMFPACKZ ls(*s); for(int k = 0; k < 20; k++) ls.matrixChanged(); };
    uint64_t f = nfails(); for(int k = 0; k < 3; k++) round(); size_t u0 = used(); for(int k = 0; k < 20; k++) round(); size_t u1 = used(); trace();
    if(f == nfails() && u1 > u0 + 20000) fail("memory-kept", cat(u1 - u0, " bytes after 20 rounds of 32 reductions and 20 factorizations"));
  }
}
