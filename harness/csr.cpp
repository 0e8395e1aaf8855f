// Compressed sparse row matrices: every pattern of small shapes through every operation, and every pair of uses of one object,
// against plain dense arithmetic.
#include "mc.hpp"
#include "hiopMatrixSparseCSRSeq.hpp"
#include "hiopMatrixSparseTriplet.hpp"
#include "hiopVectorPar.hpp"
#include <memory>
#include <algorithm>
using namespace hiop; using namespace mc; using std::string; using std::vector;
typedef std::unique_ptr<hiopMatrixSparseCSR> CP;

struct D { // dense reference with its pattern
  int m, n; vector<double> a; vector<char> p;
  D(int m_ = 0, int n_ = 0) : m(m_), n(n_), a((size_t)m_*n_, 0.), p((size_t)m_*n_, 0) {}
  double& v(int i, int j) { return a[(size_t)i*n+j]; } double v(int i, int j) const { return a[(size_t)i*n+j]; }
  char& at(int i, int j) { return p[(size_t)i*n+j]; } char at(int i, int j) const { return p[(size_t)i*n+j]; }
  int nnz() const { int k = 0; for(char c : p) k += c; return k; }
};
static D make(int m, int n, unsigned mask, int salt)
{ D d(m, n); static const double V[] = {2, -3, 5, 7, -11, 13, 0.5, -17, 19, 4, 23, -29};
  for(int k = 0; k < m*n; k++) if(mask >> k & 1) { d.p[k] = 1; d.a[k] = V[(k*5 + salt) % 12]; } return d; }
static D tr(const D& d) { D t(d.n, d.m); for(int i = 0; i < d.m; i++) for(int j = 0; j < d.n; j++) { t.v(j,i) = d.v(i,j); t.at(j,i) = d.at(i,j); } return t; }
static D mul(const D& x, const D& y) { D r(x.m, y.n); for(int i = 0; i < x.m; i++) for(int j = 0; j < y.n; j++) for(int k = 0; k < x.n; k++) if(x.at(i,k) && y.at(k,j)) { r.at(i,j) = 1; r.v(i,j) += x.v(i,k)*y.v(k,j); } return r; }
static std::unique_ptr<hiopMatrixSparseTriplet> triplet(const D& d)
{ auto t = std::unique_ptr<hiopMatrixSparseTriplet>(new hiopMatrixSparseTriplet(d.m, d.n, d.nnz())); int k = 0;
  for(int i = 0; i < d.m; i++) for(int j = 0; j < d.n; j++) if(d.at(i,j)) { t->i_row()[k] = i; t->j_col()[k] = j; t->M()[k++] = d.v(i,j); } return t; }
static void fill(hiopMatrixSparseCSR& c, const D& d) { auto t = triplet(d); c.form_from_symbolic(*t); c.form_from_numeric(*t); }
static CP csr(const D& d) { CP c(new hiopMatrixSparseCSRSeq(d.m, d.n, d.nnz())); fill(*c, d); return c; }
static string show(const D& d) { string s = cat(d.m, "x", d.n, "{"); for(int i = 0; i < d.m; i++) { for(int j = 0; j < d.n; j++) s += d.at(i,j) ? cat(d.v(i,j), " ") : string(". "); s += i+1 < d.m ? "/ " : ""; } return s + "}"; }
// the matrix is exactly d: sizes, pattern (sorted, unique), values
static string differs(hiopMatrixSparseCSR& c, const D& d)
{
  if(c.m() != d.m || c.n() != d.n) return cat("size ", c.m(), "x", c.n());
  if(c.numberOfNonzeros() != d.nnz()) return cat(c.numberOfNonzeros(), " nonzeros, expected ", d.nnz());
  if(!c.i_row()) return "no row pointers";
  if(c.i_row()[0] != 0) return "first row pointer is not zero";
  int k = 0;
  for(int i = 0; i < d.m; i++) {
    if(c.i_row()[i] != k) return cat("row pointer ", i, " is ", c.i_row()[i], ", expected ", k);
    for(int j = 0; j < d.n; j++) if(d.at(i,j)) { if(c.j_col()[k] != j) return cat("column index of nonzero ", k, " is ", c.j_col()[k], ", expected ", j); if(!(c.M()[k] == d.v(i,j))) return cat("entry (", i, ",", j, ") is ", c.M()[k], ", expected ", d.v(i,j)); k++; }
  }
  if(c.i_row()[d.m] != k) return "last row pointer";
  if(!c.check_csr_is_ordered()) return "reported as unordered";
  return "";
}
static bool expect(const char* what, hiopMatrixSparseCSR& c, const D& d, const string& ctx)
{ trans(); string e = differs(c, d); if(e.empty()) return true; fail(what, cat(ctx, ": ", e)); return false; }
static std::unique_ptr<hiopVectorPar> vec(const vector<double>& v) { auto p = std::unique_ptr<hiopVectorPar>(new hiopVectorPar(v.size())); for(size_t i = 0; i < v.size(); i++) p->local_data()[i] = v[i]; return p; }

static void unary(const D& d)
{
  string ctx = show(d); CP c = csr(d); state(hs(3, ctx));
  if(!expect("from-triplet", *c, d, ctx)) return;
  // transposes, from the triplet form and from CSR; the same object is used again with new values
  for(int src = 0; src < 2; src++) {
    hiopMatrixSparseCSRSeq t; D b = d, bt;
    for(int round = 0; round < 3; round++) {
      CP bc = csr(b); auto btr = triplet(b); bt = tr(b);
      if(round != 1) { if(src) t.form_transpose_from_symbolic(*bc); else t.form_transpose_from_symbolic(*btr); }
      if(src) t.form_transpose_from_numeric(*bc); else t.form_transpose_from_numeric(*btr);
      if(!expect("transpose", t, bt, cat(ctx, src ? " from CSR" : " from triplet", ", use ", round+1))) return;
      if(!expect("source-changed", *bc, b, ctx)) return;
      for(double& x : b.a) x *= -2;
    }
  }
  // copies
  { std::unique_ptr<hiopMatrixSparse> p(c->new_copy()); if(!expect("new_copy", dynamic_cast<hiopMatrixSparseCSR&>(*p), d, ctx)) return;
    std::unique_ptr<hiopMatrixSparse> q(c->alloc_clone()); q->copyFrom(*c); if(!expect("copyFrom", dynamic_cast<hiopMatrixSparseCSR&>(*q), d, ctx)) return;
    vector<int> ir(d.m+1, -7), jc(d.nnz()+1, -7); vector<double> va(d.nnz()+1, -7); c->copy_to(ir.data(), jc.data(), va.data()); bool ok = jc[d.nnz()] == -7 && va[d.nnz()] == -7; int k = 0;
    for(int i = 0; i < d.m; i++) { ok = ok && ir[i] == k; for(int j = 0; j < d.n; j++) if(d.at(i,j)) { ok = ok && jc[k] == j && va[k] == d.v(i,j); k++; } } ok = ok && ir[d.m] == k;
    if(!ok) { fail("copy_to", ctx); return; }
    q->setToConstant(3.5); D e = d; for(int k2 = 0; k2 < d.m*d.n; k2++) if(e.p[k2]) e.a[k2] = 3.5; if(!expect("setToConstant", dynamic_cast<hiopMatrixSparseCSR&>(*q), e, ctx)) return;
    q->setToZero(); for(double& x : e.a) x = 0; if(!expect("setToZero", dynamic_cast<hiopMatrixSparseCSR&>(*q), e, ctx)) return;
    if(!expect("copy-aliases", *c, d, ctx)) return; }
  // norms, finiteness
  { double mx = 0; for(double x : d.a) mx = std::fmax(mx, std::fabs(x)); if(c->max_abs_value() != mx) { fail("max_abs_value", cat(ctx, ": ", c->max_abs_value())); return; }
    if(!c->isfinite()) { fail("isfinite", ctx); return; }
    for(int k = 0; k < d.nnz(); k++) for(double bad : {(double)NAN, (double)INFINITY}) { CP b = csr(d); b->M()[k] = bad; if(b->isfinite()) { fail("isfinite", cat(ctx, " with ", bad)); return; } } }
  // scaling
  { vector<double> r(d.m), s(d.n); for(int i = 0; i < d.m; i++) r[i] = i % 3 == 2 ? 0 : 2 + i; for(int j = 0; j < d.n; j++) s[j] = j % 3 == 1 ? -1 : 3 + j;
    CP b = csr(d); D e = d; for(int i = 0; i < d.m; i++) for(int j = 0; j < d.n; j++) e.v(i,j) *= r[i]; b->scale_rows(*vec(r)); if(!expect("scale_rows", *b, e, ctx)) return;
    b = csr(d); e = d; for(int i = 0; i < d.m; i++) for(int j = 0; j < d.n; j++) e.v(i,j) *= s[j]; b->scale_cols(*vec(s)); if(!expect("scale_cols", *b, e, ctx)) return; }
  // diagonals
  if(d.m == d.n) {
    vector<double> g(d.n); for(int i = 0; i < d.n; i++) g[i] = 100 + i;
    CP b = csr(d); D e = d; for(int i = 0; i < d.n; i++) if(e.at(i,i)) e.v(i,i) = 42; b->set_diagonal(42); if(!expect("set_diagonal", *b, e, ctx)) return;
    b = csr(d); e = d; for(int i = 0; i < d.n; i++) if(e.at(i,i)) e.v(i,i) += 42; b->addDiagonal(42); if(!expect("addDiagonal", *b, e, ctx)) return;
    b = csr(d); e = d; for(int i = 0; i < d.n; i++) if(e.at(i,i)) e.v(i,i) += -2*g[i]; b->addDiagonal(-2., *vec(g)); if(!expect("addDiagonal", *b, e, ctx)) return;
  }
  trace();
}
static void product(const D& x, const D& y)
{
  string ctx = cat(show(x), " * ", show(y)); CP X = csr(x), Y = csr(y); D m = mul(x, y); state(hs(5, ctx));
  CP M(X->times_mat_alloc(*Y)); X->times_mat_symbolic(*M, *Y);
  X->times_mat_numeric(0., *M, 1., *Y); if(!expect("times_mat", *M, m, ctx)) return;
  for(double be : {1., 0., -2.}) for(double al : {1., -3., 0.}) { X->times_mat_numeric(be, *M, al, *Y); D p = mul(x, y); for(int k = 0; k < m.m*m.n; k++) m.a[k] = be*m.a[k] + al*p.a[k]; if(!expect("times_mat", *M, m, cat(ctx, " beta=", be, " alpha=", al))) return; }
  // M = X*D*Y by scaling, the values of X changed after the symbolic phase
  vector<double> s(x.n); for(int k = 0; k < x.n; k++) s[k] = 2*k - 1; D x2 = x; for(int i = 0; i < x.m; i++) for(int k = 0; k < x.n; k++) x2.v(i,k) *= s[k];
  X->scale_cols(*vec(s)); X->times_mat_numeric(0., *M, 1., *Y); if(!expect("times_mat", *M, mul(x2, y), ctx + " rescaled")) return;
  if(!expect("source-changed", *X, x2, ctx) || !expect("source-changed", *Y, y, ctx)) return;
  trace();
}
static void sum(const D& x, const D& y)
{
  string ctx = cat(show(x), " + ", show(y)); CP X = csr(x), Y = csr(y); state(hs(6, ctx));
  CP M(X->add_matrix_alloc(*Y)); X->add_matrix_symbolic(*M, *Y);
  for(double al : {1., -2., 0.}) for(double be : {1., 3., 0.}) {
    D r(x.m, x.n); for(int k = 0; k < x.m*x.n; k++) { r.p[k] = x.p[k] || y.p[k]; r.a[k] = al*x.a[k] + be*y.a[k]; }
    X->add_matrix_numeric(*M, al, *Y, be); if(!expect("add_matrix", *M, r, cat(ctx, " alpha=", al, " beta=", be))) return;
  }
  if(!expect("source-changed", *X, x, ctx) || !expect("source-changed", *Y, y, ctx)) return;
  trace();
}
// one object formed from one matrix after another, in every way
static void reuse(const D& a, const D& b)
{
  for(int k1 = 0; k1 < 4; k1++) for(int k2 = 0; k2 < 4; k2++) {
    hiopMatrixSparseCSRSeq c; string ctx = cat("object reused: ", k1, " ", show(a), " then ", k2, " ", show(b)); state(hs(9, ctx));
    for(int s = 0; s < 2; s++) {
      const D& d = s ? b : a; int k = s ? k2 : k1; D want = d;
      if(k == 0) fill(c, d);
      if(k == 1) { auto t = triplet(d); c.form_transpose_from_symbolic(*t); c.form_transpose_from_numeric(*t); want = tr(d); }
      if(k == 2) { CP q = csr(d); c.form_transpose_from_symbolic(*q); c.form_transpose_from_numeric(*q); want = tr(d); }
      if(k == 3) { vector<double> g(d.m); want = D(d.m, d.m); for(int i = 0; i < d.m; i++) { g[i] = want.v(i,i) = 3 - i; want.at(i,i) = 1; } auto gv = vec(g); c.form_diag_from_symbolic(*gv); c.form_diag_from_numeric(*gv); }
      if(!expect("reuse", c, want, cat(ctx, " (step ", s+1, ")"))) return;
      if(s == 1) { // and as a factor of a product
        D y(want.n, 2); for(int q = 0; q < want.n*2; q++) { y.p[q] = 1; y.a[q] = 1 + q; } CP Y = csr(y); CP M(c.times_mat_alloc(*Y)); c.times_mat_symbolic(*M, *Y); c.times_mat_numeric(0., *M, 2., *Y); D m = mul(want, y); for(double& v : m.a) v *= 2; if(!expect("reuse", *M, m, ctx + " times")) return; }
    }
    trace();
  }
}
void mc_body()
{
  int top = 3;
  for(int m = 0; m <= top + (opt.thorough ? 1 : 0); m++) for(int n = 0; n <= top + (opt.thorough ? 1 : 0); n++) for(int part = 0; part < 2; part++)
    if(begin(cat("unary:", m, "x", n, ":", part))) for(unsigned s = part; s < (1u << m*n); s += 2) unary(make(m, n, s, s % 7));
  int bits = opt.thorough ? 20 : 16;
  for(int m = 0; m <= 4; m++) for(int k = 0; k <= 4; k++) for(int n = 0; n <= 4; n++) if(m*k + k*n <= bits) {
    unsigned A = 1u << m*k, B = 1u << k*n;
    for(unsigned part = 0; part < 8 && part < A; part++) if(begin(cat("product:", m, "x", k, "x", n, ":", part))) {
      if(m == 2 && k == 2 && n == 2 && part == 5) sample("all products of 2x2 patterns, 9 (beta,alpha), rescaled");
      for(unsigned a = part; a < A; a += 8) { uint64_t f = nfails(); for(unsigned b = 0; b < B && f == nfails(); b++) product(make(m, k, a, a % 5), make(k, n, b, b % 7)); } }
  }
  int abits = opt.thorough ? 10 : 8;
  for(int m = 0; m <= 5; m++) for(int n = 0; n <= 5; n++) if(m*n <= abits) { unsigned A = 1u << m*n;
    for(unsigned part = 0; part < 8 && part < A; part++) if(begin(cat("sum:", m, "x", n, ":", part)))
      for(unsigned a = part; a < A; a += 8) { uint64_t f = nfails(); for(unsigned b = 0; b < A && f == nfails(); b++) sum(make(m, n, a, a % 5), make(m, n, b, b % 7)); } }
  vector<D> U; for(int m = 0; m <= 2; m++) for(int n = 0; n <= (opt.thorough ? 3 : 2); n++) for(unsigned s = 0; s < (1u << m*n); s++) U.push_back(make(m, n, s, s % 7));
  for(size_t i = 0; i < U.size(); i++) if(begin(cat("reuse:", i))) for(auto& b : U) { uint64_t f = nfails(); reuse(U[i], b); if(nfails() != f) break; }
}
