#pragma once
// A formulation object with a chosen shape (variables, equalities, inequalities, which bounds exist), and direct access to iterates,
// residuals, Jacobians and Hessians, so that the linear algebra of the interior-point method can be driven with arbitrary data.
#include "nlp.hpp"
#include "hiopIterate.hpp"
#include "hiopResidual.hpp"
#include "hiopKKTLinSys.hpp"
#include "hiopKKTLinSysDense.hpp"
#include "hiopKKTLinSysMDS.hpp"
#include "hiopHessianLowRank.hpp"
#include "hiopPDPerturbation.hpp"
#include "hiopFactAcceptor.hpp"
#include "hiopMatrixDenseRowMajor.hpp"
#include "hiopMatrixMDS.hpp"
#include "hiopMatrixSparseTriplet.hpp"
#include "hiopVectorPar.hpp"
#include "hiopVectorCompoundPD.hpp"

namespace kf {
using namespace hiop; using namespace mc;
typedef std::vector<double> V; typedef std::vector<int> I;

// pattern of bounds: 0 none, 1 lower, 2 upper, 3 both
struct Shape {
  int n, me, mi; I px, pd;
  std::string str() const { std::string s = cat("n", n, "e", me, "i", mi, ":"); for(int p : px) s += "-lub"[p]; s += "/"; for(int p : pd) s += "-lub"[p]; return s; }
};
// holes: every second diagonal entry of the Hessian is not in its pattern; full: every derivative is a nonzero of the pattern; diagH: only the Hessian's diagonal is
inline nlp::Model model(const Shape& S, bool full = false, bool diagH = false, bool holes = false)
{
  nlp::Model M("shape", S.n); const double I = nlp::INF;
  for(int i = 0; i < S.n; i++) M.bnd(i, S.px[i] & 1 ? -2.-i : -I, S.px[i] & 2 ? 3.+i : I);
  for(int i = 0; i < S.n; i++) M.Q[i*S.n+i] = 1;
  for(int k = 0; k < S.me; k++) { M.con(0.5*k, {}, 0.5*k); M.A.back()[k % S.n] = 1; }
  for(int k = 0; k < S.mi; k++) { M.con(S.pd[k] & 1 ? -1.5-k : -I, {}, S.pd[k] & 2 ? 2.5+k : I); M.A.back()[k % S.n] = 1; }
  if(full) { for(auto& a : M.A) for(double& v : a) if(v == 0) v = 0.5; if(!diagH) for(int i = 0; i < S.n; i++) for(int j = 0; j < S.n; j++) if(i != j) M.Q[i*S.n+j] = 0.125; if(holes) for(int i = 0; i < S.n; i += 2) M.Q[i*S.n+i] = 0; }
  return M;
}
struct Fix {
  Shape S; nlp::Model M; nlp::User u; std::unique_ptr<nlp::Instance> in; hiopNlpFormulation* f; int ns = 0;
  Fix(const Shape& S_, const std::string& form, const nlp::Opts& o = {}, const std::vector<index_type>& part = {}, bool diagH = false, bool holes = false) : S(S_), M(model(S_, form.compare(0, 6, "sparse") == 0, diagH, holes)), u{}
  {
    u.M = &M; u.part = part; u.check_bounds = false;
    nlp::Opts oo = o; bool brp = false; for(auto& p : o) if(p.k == "bound_relax_perturb") brp = true; if(!brp) oo.push_back({"bound_relax_perturb", "0"});
    in.reset(new nlp::Instance(u, form, oo)); f = in->f.get();
    if(form.compare(0, 3, "mds") == 0) ns = atoi(form.c_str()+3);
    if(diagH) ns = S.n;
    if(!f->finalizeInitialization()) { fprintf(stderr, "finalizeInitialization failed\n"); abort(); }
  }
};
inline double* raw(hiopVector* v) { return static_cast<hiopVectorPar*>(v)->local_data(); }
inline V get(const hiopVector* v) { const double* p = static_cast<const hiopVectorPar*>(v)->local_data_const(); return V(p, p+v->get_local_size()); }
inline void put(hiopVector* v, const V& a) { for(size_t i = 0; i < a.size(); i++) raw(v)[i] = a[i]; }

struct Full { V x, d, yc, yd, sxl, sxu, sdl, sdu, zl, zu, vl, vu; };
inline Full full(const Shape& S, double val = 0) { Full r; r.x = r.sxl = r.sxu = r.zl = r.zu = V(S.n, val); r.d = r.yd = r.sdl = r.sdu = r.vl = r.vu = V(S.mi, val); r.yc = V(S.me, val); return r; }
inline std::vector<V*> parts(Full& r) { return {&r.x, &r.d, &r.yc, &r.yd, &r.sxl, &r.sxu, &r.sdl, &r.sdu, &r.zl, &r.zu, &r.vl, &r.vu}; }
inline const char* pname(int k) { static const char* n[] = {"x","d","yc","yd","sxl","sxu","sdl","sdu","zl","zu","vl","vu"}; return n[k]; }
inline std::vector<hiopVector*> parts(const hiopIterate& i) { return {i.get_x(), i.get_d(), i.get_yc(), i.get_yd(), i.get_sxl(), i.get_sxu(), i.get_sdl(), i.get_sdu(), i.get_zl(), i.get_zu(), i.get_vl(), i.get_vu()}; }
// residual parts in the same order: rx rd ryc ryd rxl rxu rdl rdu rszl rszu rsvl rsvu
inline std::vector<hiopVector*> parts(hiopResidual& r) { return {r.get_rx(), r.get_rd(), r.get_ryc(), r.get_ryd(), r.get_rxl(), r.get_rxu(), r.get_rdl(), r.get_rdu(), r.get_rszl(), r.get_rszu(), r.get_rsvl(), r.get_rsvu()}; }
template<class T> void load(T& it, Full& v) { auto p = parts(it); auto q = parts(v); for(int k = 0; k < 12; k++) put(p[k], *q[k]); }
template<class T> Full save(T& it) { Full r; auto p = parts(it); auto q = parts(r); for(int k = 0; k < 12; k++) *q[k] = get(p[k]); return r; }
inline bool has(const Shape& S, int part, int i)   // does this entry of part exist
{ switch(part) { case 4: case 8: return S.px[i] & 1; case 5: case 9: return S.px[i] & 2; case 6: case 10: return S.pd[i] & 1; case 7: case 11: return S.pd[i] & 2; } return true; }
inline void mask(const Shape& S, Full& v) { auto q = parts(v); for(int k = 4; k < 12; k++) for(size_t i = 0; i < q[k]->size(); i++) if(!has(S, k, i)) (*q[k])[i] = 0; }
inline std::string str(Full v) { std::string s; auto q = parts(v); for(int k = 0; k < 12; k++) if(q[k]->size()) s += cat(pname(k), "=", vstr(*q[k]), " "); return s; }

// Jacobian of k rows into the formulation's matrix
inline void putJac(hiopMatrix* J, const V& A, int m, int n, int ns)
{
  if(auto* D = dynamic_cast<hiopMatrixMDS*>(J)) {
    hiopMatrixSparseTriplet* T = const_cast<hiopMatrixSparseTriplet*>(dynamic_cast<const hiopMatrixSparseTriplet*>(D->sp_mat())); int p = 0;
    for(int i = 0; i < m; i++) for(int j = 0; j < ns; j++) { T->i_row()[p] = i; T->j_col()[p] = j; T->M()[p++] = A[i*n+j]; }
    for(int i = 0; i < m; i++) for(int j = ns; j < n; j++) const_cast<hiopMatrixDense*>(D->de_mat())->local_data()[i*(n-ns)+j-ns] = A[i*n+j];
  } else if(auto* T = dynamic_cast<hiopMatrixSparseTriplet*>(J)) {
    if(T->numberOfNonzeros() != m*n) { fprintf(stderr, "Jacobian with %d nonzeros\n", T->numberOfNonzeros()); abort(); }
    int p = 0; for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) { T->i_row()[p] = i; T->j_col()[p] = j; T->M()[p++] = A[i*n+j]; }
  } else { auto* E = dynamic_cast<hiopMatrixDense*>(J); for(int i = 0; i < m*n; i++) E->local_data()[i] = A[i]; }
}
inline void putHess(hiopMatrix* H, const V& A, int n, int ns)
{
  if(auto* D = dynamic_cast<hiopMatrixSymBlockDiagMDS*>(H)) {
    auto* T = const_cast<hiopMatrixSparseTriplet*>(dynamic_cast<const hiopMatrixSparseTriplet*>(D->sp_mat()));
    for(int i = 0; i < ns; i++) { T->i_row()[i] = T->j_col()[i] = i; T->M()[i] = A[i*n+i]; }
    for(int i = ns; i < n; i++) for(int j = ns; j < n; j++) const_cast<hiopMatrixDense*>(D->de_mat())->local_data()[(i-ns)*(n-ns)+j-ns] = A[i*n+j];
  } else if(auto* T = dynamic_cast<hiopMatrixSparseTriplet*>(H)) {
    int p = 0; bool diag = ns == n && T->numberOfNonzeros() == n; for(int i = 0; i < n; i++) for(int j = i; j < n; j++) if(i == j || !diag) { T->i_row()[p] = i; T->j_col()[p] = j; T->M()[p++] = A[i*n+j]; }
    if(p != T->numberOfNonzeros()) { fprintf(stderr, "Hessian with %d nonzeros\n", T->numberOfNonzeros()); abort(); }
  } else { auto* E = dynamic_cast<hiopMatrixDense*>(H); for(int i = 0; i < n*n; i++) E->local_data()[i] = A[i]; }
}

// eigenvalues of a symmetric matrix (cyclic Jacobi)
inline V eig(V A, int n)
{
  for(int sweep = 0; sweep < 100; sweep++) {
    double off = 0, dg = 0; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) (i == j ? dg : off) += A[i*n+j]*A[i*n+j];
    if(off <= 1e-30*dg || off == 0) break;
    for(int p = 0; p < n; p++) for(int q = p+1; q < n; q++) {
      double apq = A[p*n+q]; if(apq == 0) continue;
      double th = (A[q*n+q]-A[p*n+p])/(2*apq), t = (th >= 0 ? 1 : -1)/(std::fabs(th)+std::sqrt(th*th+1)), c = 1/std::sqrt(t*t+1), s = t*c;
      for(int k = 0; k < n; k++) { double a = A[k*n+p], b = A[k*n+q]; A[k*n+p] = c*a-s*b; A[k*n+q] = s*a+c*b; }
      for(int k = 0; k < n; k++) { double a = A[p*n+k], b = A[q*n+k]; A[p*n+k] = c*a-s*b; A[q*n+k] = s*a+c*b; }
    }
  }
  V e(n); for(int i = 0; i < n; i++) e[i] = A[i*n+i]; return e;
}

struct Data { V H, Jc, Jd; };
struct Deltas { V wx, wd, cc, cd; };
inline Deltas deltas(const hiopPDPerturbation& p) { return {get(p.get_curr_delta_wx()), get(p.get_curr_delta_wd()), get(p.get_curr_delta_cc()), get(p.get_curr_delta_cd())}; }

// K*v for the full Newton system; 'size' receives the sum of absolute values of the terms
inline Full apply(const Shape& S, const Data& D, const Full& it, const Deltas& e, const Full& v, Full& size)
{
  Full r = full(S), z = full(S); int n = S.n;
  auto add = [](double& a, double& b, double t) { a += t; b += std::fabs(t); };
  for(int i = 0; i < n; i++) {
    for(int j = 0; j < n; j++) add(r.x[i], z.x[i], D.H[i*n+j]*v.x[j]);
    add(r.x[i], z.x[i], e.wx[i]*v.x[i]);
    for(int k = 0; k < S.me; k++) { add(r.x[i], z.x[i], D.Jc[k*n+i]*v.yc[k]); add(r.yc[k], z.yc[k], D.Jc[k*n+i]*v.x[i]); }
    for(int k = 0; k < S.mi; k++) { add(r.x[i], z.x[i], D.Jd[k*n+i]*v.yd[k]); add(r.yd[k], z.yd[k], D.Jd[k*n+i]*v.x[i]); }
    add(r.x[i], z.x[i], -v.zl[i]); add(r.x[i], z.x[i], v.zu[i]);
    if(S.px[i] & 1) { add(r.sxl[i], z.sxl[i], -v.x[i]); add(r.sxl[i], z.sxl[i], v.sxl[i]); }
    if(S.px[i] & 2) { add(r.sxu[i], z.sxu[i], v.x[i]); add(r.sxu[i], z.sxu[i], v.sxu[i]); }
    add(r.zl[i], z.zl[i], it.sxl[i]*v.zl[i]); add(r.zl[i], z.zl[i], it.zl[i]*v.sxl[i]);
    add(r.zu[i], z.zu[i], it.sxu[i]*v.zu[i]); add(r.zu[i], z.zu[i], it.zu[i]*v.sxu[i]);
  }
  for(int k = 0; k < S.me; k++) add(r.yc[k], z.yc[k], -e.cc[k]*v.yc[k]);
  for(int k = 0; k < S.mi; k++) {
    add(r.yd[k], z.yd[k], -v.d[k]); add(r.yd[k], z.yd[k], -e.cd[k]*v.yd[k]);
    add(r.d[k], z.d[k], -v.yd[k]); add(r.d[k], z.d[k], -v.vl[k]); add(r.d[k], z.d[k], v.vu[k]); add(r.d[k], z.d[k], e.wd[k]*v.d[k]);
    if(S.pd[k] & 1) { add(r.sdl[k], z.sdl[k], -v.d[k]); add(r.sdl[k], z.sdl[k], v.sdl[k]); }
    if(S.pd[k] & 2) { add(r.sdu[k], z.sdu[k], v.d[k]); add(r.sdu[k], z.sdu[k], v.sdu[k]); }
    add(r.vl[k], z.vl[k], it.sdl[k]*v.vl[k]); add(r.vl[k], z.vl[k], it.vl[k]*v.sdl[k]);
    add(r.vu[k], z.vu[k], it.sdu[k]*v.vu[k]); add(r.vu[k], z.vu[k], it.vu[k]*v.sdu[k]);
  }
  size = z; return r;
}
// the symmetric matrix whose inertia matters: [H+Dx+dwx 0 Jc' Jd'; 0 Dd+dwd 0 -I; Jc 0 -dcc 0; Jd -I 0 -dcd]
inline V aug(const Shape& S, const Data& D, const Full& it, const Deltas& e, int& N)
{
  int n = S.n, a = n, b = n+S.mi, c = b+S.me; N = c+S.mi; V A(N*N, 0.);
  auto set = [&](int i, int j, double v) { A[i*N+j] += v; if(i != j) A[j*N+i] += v; };
  for(int i = 0; i < n; i++) for(int j = i; j < n; j++) set(i, j, D.H[i*n+j]);
  for(int i = 0; i < n; i++) set(i, i, e.wx[i] + (S.px[i] & 1 ? it.zl[i]/it.sxl[i] : 0) + (S.px[i] & 2 ? it.zu[i]/it.sxu[i] : 0));
  for(int k = 0; k < S.mi; k++) { set(a+k, a+k, e.wd[k] + (S.pd[k] & 1 ? it.vl[k]/it.sdl[k] : 0) + (S.pd[k] & 2 ? it.vu[k]/it.sdu[k] : 0)); set(a+k, c+k, -1); set(c+k, c+k, -e.cd[k]); }
  for(int k = 0; k < S.me; k++) { for(int i = 0; i < n; i++) set(i, b+k, D.Jc[k*n+i]); set(b+k, b+k, -e.cc[k]); }
  for(int k = 0; k < S.mi; k++) for(int i = 0; i < n; i++) set(i, c+k, D.Jd[k*n+i]);
  return A;
}
// negative/zero eigenvalue counts; amb: too close to zero to tell
struct Inertia { int neg = 0, amb = 0; double small = 1e300, big = 0; };
inline Inertia inertia(const V& A, int N, double rel = 1e-10)
{ Inertia r; V e = eig(A, N); for(double v : e) r.big = std::max(r.big, std::fabs(v)); for(double v : e) { r.small = std::min(r.small, std::fabs(v)); if(std::fabs(v) <= rel*r.big) r.amb++; else if(v < 0) r.neg++; } return r; }
}
