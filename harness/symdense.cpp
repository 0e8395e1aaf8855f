// The dense symmetric indefinite factorization: inertia and solutions for every small integer matrix, and histories of one solver object.
#include "kfix.hpp"
#include "hiopLinSolverSymDenseLapack.hpp"
#include <memory>
#include <random>
using namespace hiop; using namespace mc; using std::string; using std::vector;
typedef vector<double> V; typedef vector<long long> L;

// exact inertia of an integer symmetric matrix: signs of the roots of the characteristic polynomial (all real), by Descartes' rule
struct Inertia { int neg = 0, nul = 0, pos = 0; };
static Inertia inertia(const L& A, int n)
{
  L c(n+1, 0), M(n*n, 0); c[n] = 1; // Faddeev-LeVerrier: M_k = A M_{k-1} + c_{n-k+1} I,  c_{n-k} = -tr(A M_k)/k
  for(int k = 1; k <= n; k++) {
    L T(n*n, 0); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { long long s = 0; for(int q = 0; q < n; q++) s += A[i*n+q]*M[q*n+j]; T[i*n+j] = s + (i == j ? c[n-k+1] : 0); } M = T;
    long long t = 0; for(int i = 0; i < n; i++) for(int q = 0; q < n; q++) t += A[i*n+q]*M[q*n+i]; c[n-k] = -t/k; }
  Inertia r; while(r.nul < n && c[r.nul] == 0) r.nul++;
  int last = 0, ch = 0; for(int k = 0; k <= n; k++) if(c[k]) { int s = c[k] > 0 ? 1 : -1; if(last && s != last) ch++; last = s; } r.pos = ch; r.neg = n - r.nul - r.pos; return r;
}
static string show(const L& A, int n) { string s = "{"; for(int i = 0; i < n; i++) { for(int j = 0; j < n; j++) s += cat(A[i*n+j], " "); s += i+1 < n ? "/ " : ""; } return s + "}"; }
static std::unique_ptr<kf::Fix> fx;
typedef std::unique_ptr<hiopLinSolverSymDenseLapack> LS;
static LS solver(int n) { return LS(new hiopLinSolverSymDenseLapack(n, fx->f)); }
// only the upper triangle is the matrix; the rest is whatever was there
static void put(hiopLinSolverSymDenseLapack& ls, const L& A, int n, const V& sc, bool garbage)
{ double* M = ls.sysMatrix().local_data(); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) M[i*n+j] = j < i && garbage ? (i+j) % 2 ? NAN : 1e300 : A[i*n+j]*sc[i]*sc[j]; }
static bool round_(hiopLinSolverSymDenseLapack& ls, const L& A, int n, const V& sc, const string& tag)
{
  Inertia in = inertia(A, n); put(ls, A, n, sc, true); int r = ls.matrixChanged(); trans(); auto ctx = [&]() { return cat(tag, n, "x", n, show(A, n), " scaled ", vstr(sc)); };
  bool unit = true; for(double v : sc) unit = unit && v == 1; // an exact zero eigenvalue of a large matrix may be rounded to one of either sign
  if(in.nul ? r != -1 && (unit || r < in.neg || r > in.neg + in.nul) : r != in.neg) { fail("inertia", cat(ctx(), ": reported ", r, ", has ", in.neg, " negative, ", in.nul, " zero, ", in.pos, " positive eigenvalues")); return false; }
  if(r < 0 || in.nul) return true;
  for(int q = 0; q < 2; q++) { hiopVectorPar x(n); V b(n); double nb = 0, nx = 0, na = 0; for(int i = 0; i < n; i++) { b[i] = q ? sc[i]*(3*i - 2) : 1 + i; x.local_data()[i] = b[i]; nb = std::fmax(nb, std::fabs(b[i])); }
    if(!ls.solve(x)) { fail("solve-refused", ctx()); return false; } trans(); double* p = x.local_data(); for(int i = 0; i < n; i++) nx = std::fmax(nx, std::fabs(p[i])); for(int i = 0; i < n*n; i++) na = std::fmax(na, std::fabs(A[i]*sc[i/n]*sc[i%n]));
    for(int i = 0; i < n; i++) { double s = -b[i]; for(int j = 0; j < n; j++) s += A[i*n+j]*sc[i]*sc[j]*p[j]; if(!(std::fabs(s) <= 1e-10*(na*nx*n + nb))) { fail("solution", cat(ctx(), ": x=", vstr(V(p, p+n)), " residual ", s)); return false; } } }
  trace(); return true;
}
static L sym(int n, const vector<int>& d, int off) { L A(n*n); int k = 0; for(int i = 0; i < n; i++) for(int j = i; j < n; j++, k++) A[i*n+j] = A[j*n+i] = d[k] + off; return A; }
static void all(int n, int range, int part, int parts, const V& sc)
{
  int len = n*(n+1)/2; vector<int> d(len, 0), radix(len, 2*range+1); LS ls = solver(n); uint64_t k = 0;
  do { if((int)(k++ % parts) != part) continue; L A = sym(n, d, -range); state(hv(n, A)); if(!round_(*ls, A, n, sc, "")) return; } while(len && advance(d, radix));
}
static void nonfinite(int n, int range)
{
  int len = n*(n+1)/2; vector<int> d(len, 0), radix(len, 2*range+1); LS ls = solver(n); V one(n, 1.);
  do { L A = sym(n, d, -range); if(inertia(A, n).nul) continue;
    for(int i = 0; i < n; i++) for(int j = i; j < n; j++) { put(*ls, A, n, one, true); ls->sysMatrix().local_data()[i*n+j] = NAN; int r = ls->matrixChanged(); trans(); if(r != -1) { fail("nan-accepted", cat(show(A, n), " with NaN at (", i, ",", j, "): reported ", r)); return; } }
    if(!round_(*ls, A, n, one, "after a matrix with NaN ")) return; trace();
  } while(advance(d, radix));
}
void mc_body()
{
  kf::Shape S{2, 1, 0, {3,3}, {}}; fx.reset(new kf::Fix(S, "dense"));
  struct C { int n, r, parts; }; vector<C> cs = {{0,0,1},{1,5,1},{2,4,1},{3,2,4},{4,1,8}}; if(opt.thorough) cs = {{0,0,1},{1,9,1},{2,9,1},{3,3,8},{4,1,8},{5,1,64},{4,2,64}};
  for(auto& c : cs) for(int p = 0; p < c.parts; p++) { if(begin(cat("all:", c.n, ":", c.r, ":", p))) { if(c.n == 4 && p == 1) sample("all symmetric 4x4 matrices with entries -1, 0, 1"); all(c.n, c.r, p, c.parts, V(c.n, 1.)); }
    if(c.n >= 1 && c.n <= 4 && c.r <= (c.n == 1 ? 9 : 4) && begin(cat("scaled:", c.n, ":", c.r, ":", p))) for(V s : {V{64, 1, 0.25, 16}, V{0.0625, 8, 2, 0.125}, V{1024, 1024, 1024, 1024}, V{0x1p-18, 0x1p-18, 0x1p-18, 0x1p-18}, V{0x1p-9, 0x1p-18, 1, 0x1p-13}, V{0x1p20, 0x1p20, 0x1p20, 0x1p20}}) { s.resize(c.n); all(c.n, c.r, p, c.parts, s); } }
  for(int n = 1; n <= (opt.thorough ? 4 : 3); n++) if(begin(cat("nan:", n))) nonfinite(n, n == 1 ? 3 : n == 2 ? 2 : 1);
  // one object, one matrix after another, of every inertia
  for(int n = 1; n <= 3; n++) { vector<L> U; int len = n*(n+1)/2; vector<int> d(len, 0), radix(len, 3); do U.push_back(sym(n, d, -1)); while(advance(d, radix)); size_t step = n == 3 && !opt.thorough ? 5 : 1;
    for(int part = 0; part < 8; part++) if(begin(cat("pairs:", n, ":", part))) for(size_t i = part; i < U.size(); i += 8) for(size_t j = 0; j < U.size(); j += step) { LS ls = solver(n); V one(n, 1.); if(!round_(*ls, U[i], n, one, "") || !round_(*ls, U[j], n, one, cat("after ", show(U[i], n), " ")) || !round_(*ls, U[i], n, one, "third ")) return; } }
  // larger blocked factorizations (the LAPACK routine changes algorithm with the size): arrow and saddle-point matrices of known inertia
  for(int n : {8, 31, 32, 33, 63, 64, 65, 66, 100, 130}) if(begin(cat("large:", n))) for(int k = 0; k <= n; k += n > 40 ? n/6 : n > 10 ? 5 : 1) for(int kind = 0; kind < 3; kind++) {
    // kind 0: diagonal plus dominated coupling; 1: [D B^T; B 0] with k rows in B; 2: permuted anti-diagonal pairs
    V A(n*n, 0.); int neg = 0; bool ok = true;
    if(kind == 0) { for(int i = 0; i < n; i++) { A[i*n+i] = (i < k ? -1 : 1)*2.*n; for(int j = 0; j < i; j++) A[i*n+j] = A[j*n+i] = ((i*7 + j*3) % 5 - 2)*0.5; } neg = k; }
    if(kind == 1) { int m = std::min(k, n/2), q = n - m; for(int i = 0; i < q; i++) A[i*n+i] = 1 + i % 3; for(int r = 0; r < m; r++) { A[(q+r)*n+r] = A[r*n+q+r] = 2; A[(q+r)*n+(r+1)%q] += 0.5; A[((r+1)%q)*n+q+r] += 0.5; } neg = m; ok = q >= 2; }
    if(kind == 2) { for(int i = 0; i+1 < n; i += 2) { A[i*n+i+1] = A[(i+1)*n+i] = 3 + i % 4; neg++; } if(n % 2) { A[n*n-1] = -1; neg++; } }
    if(!ok) continue; LS ls = solver(n); double* M = ls->sysMatrix().local_data(); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) M[i*n+j] = j < i ? NAN : A[i*n+j]; int r = ls->matrixChanged(); trans();
    if(r != neg) { fail("inertia", cat("n=", n, " k=", k, " kind ", kind, ": reported ", r, ", has ", neg, " negative")); break; }
    hiopVectorPar x(n); V b(n); double nx = 0; for(int i = 0; i < n; i++) x.local_data()[i] = b[i] = i % 7 - 3; if(!ls->solve(x)) { fail("solve-refused", cat("n=", n)); break; } for(int i = 0; i < n; i++) nx = std::fmax(nx, std::fabs(x.local_data()[i]));
    double worst = 0; for(int i = 0; i < n; i++) { double s = -b[i]; for(int j = 0; j < n; j++) s += A[i*n+j]*x.local_data()[j]; worst = std::fmax(worst, std::fabs(s)); } if(!(worst <= 1e-10*(2.*n*n*nx + 3))) { fail("solution", cat("n=", n, " k=", k, " kind ", kind, ": residual ", worst)); break; } trace(); }
}
