// C01: the C and the Fortran interface are the C++ interface in other words: what the user's functions are asked, and what is returned, is the same.
#include "nlp.hpp"
#include "chiopInterface.hpp"
#include <malloc.h>
#include <unistd.h>
using namespace nlp; using namespace mc;
typedef void (*fcb_f)(int*, double*, int*, double*); typedef void (*fcb_c)(int*, int*, double*, int*, double*);
extern "C" { void* hiopdenseprob_(int*, int*, double*, double*, double*, double*, double*, fcb_f, fcb_c, fcb_f, fcb_c); void hiopdensesolve_(void**, double*, double*); void deletehiopdenseprob_(void**); }

#ifdef HIOP_SPARSE
typedef void (*fcb_j)(int*, int*, int*, double*, int*, int*, int*, int*, double*); typedef void (*fcb_h)(int*, int*, int*, double*, double*, int*, double*, int*, int*, int*, int*, double*);
extern "C" { void* hiopsparseprob_(int*, int*, int*, int*, int*, double*, double*, double*, double*, double*, fcb_f, fcb_c, fcb_f, fcb_j, fcb_h); void hiopsparsesolve_(void**, double*, double*); void deletehiopsparseprob_(void**); }
#endif
struct Log { vector<string> ev; uint64_t h = 1469598103934665603ull;
  void add(const char* w, const vector<double>& v, const string& rest) { for(double d : v) h = hd(h, d); h = hs(hs(h, w), rest); if(ev.size() < 4000) ev.push_back(cat(w, " ", rest, " at ", vstr(v))); } };
static vector<double> V(const double* x, int n) { return vector<double>(x, x + n); }
// the user's functions, all of them recorded; one call for all the constraints, which is all the C interface has
struct DRec : nlp::Dense { Log L; User U; DRec(const Model& M) : nlp::Dense(U) { U.M = &M; U.one_call = true; U.check_bounds = false; }
  bool get_prob_sizes(size_type& n, size_type& m) override { L.add("sizes", {}, ""); return Dense::get_prob_sizes(n, m); }
  bool get_vars_info(const size_type& n, double* l, double* u, NonlinearityType* t) override { L.add("vars", {}, cat(n)); return Dense::get_vars_info(n, l, u, t); }
  bool get_cons_info(const size_type& m, double* l, double* u, NonlinearityType* t) override { L.add("cons", {}, cat(m)); return Dense::get_cons_info(m, l, u, t); }
  using Dense::get_starting_point; bool get_starting_point(const size_type& n, double* x) override { L.add("start", {}, cat(n)); return Dense::get_starting_point(n, x); }
  bool eval_f(const size_type& n, const double* x, bool nx, double& v) override { L.add("f", V(x, n), nx ? "new" : "same"); return Dense::eval_f(n, x, nx, v); }
  bool eval_grad_f(const size_type& n, const double* x, bool nx, double* g) override { L.add("grad", V(x, n), nx ? "new" : "same"); return Dense::eval_grad_f(n, x, nx, g); }
  using Dense::eval_cons; using Dense::eval_Jac_cons;
  bool eval_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* c) override { L.add("cons", V(x, n), cat(m, nx ? " new" : " same")); return Dense::eval_cons(n, m, x, nx, c); }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* J) override { L.add("jac", V(x, n), cat(m, nx ? " new" : " same")); return Dense::eval_Jac_cons(n, m, x, nx, J); } };
struct MRec : nlp::MDS { Log L; User U; MRec(const Model& M, int ns) : nlp::MDS(U, ns) { U.M = &M; U.one_call = true; U.check_bounds = false; }
  bool get_prob_sizes(size_type& n, size_type& m) override { L.add("sizes", {}, ""); return MDS::get_prob_sizes(n, m); }
  bool get_vars_info(const size_type& n, double* l, double* u, NonlinearityType* t) override { L.add("vars", {}, cat(n)); return MDS::get_vars_info(n, l, u, t); }
  bool get_cons_info(const size_type& m, double* l, double* u, NonlinearityType* t) override { L.add("cons", {}, cat(m)); return MDS::get_cons_info(m, l, u, t); }
  using MDS::get_starting_point; bool get_starting_point(const size_type& n, double* x) override { L.add("start", {}, cat(n)); return MDS::get_starting_point(n, x); }
  bool get_sparse_dense_blocks_info(int& a, int& b, int& c, int& d, int& e, int& f) override { L.add("blocks", {}, ""); return MDS::get_sparse_dense_blocks_info(a, b, c, d, e, f); }
  bool eval_f(const size_type& n, const double* x, bool nx, double& v) override { L.add("f", V(x, n), nx ? "new" : "same"); return MDS::eval_f(n, x, nx, v); }
  bool eval_grad_f(const size_type& n, const double* x, bool nx, double* g) override { L.add("grad", V(x, n), nx ? "new" : "same"); return MDS::eval_grad_f(n, x, nx, g); }
  using MDS::eval_cons; using MDS::eval_Jac_cons;
  bool eval_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* c) override { L.add("cons", V(x, n), cat(m, nx ? " new" : " same")); return MDS::eval_cons(n, m, x, nx, c); }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, const size_type& s, const size_type& d, const size_type& nnz, index_type* i, index_type* j, double* MJ, double* JD) override
  { L.add("jac", V(x, n), cat(m, nx ? " new " : " same ", s, ",", d, ",", nnz, " ", i != 0, j != 0, MJ != 0, JD != 0)); return MDS::eval_Jac_cons(n, m, x, nx, s, d, nnz, i, j, MJ, JD); }
  bool eval_Hess_Lagr(const size_type& n, const size_type& m, const double* x, bool nx, const double& of, const double* lam, bool nl, const size_type& s, const size_type& d, const size_type& ss, index_type* iH, index_type* jH, double* MH, double* HDD, size_type& sd, index_type* iS, index_type* jS, double* MS) override
  { vector<double> v = V(x, n); v.push_back(of); if(MH || HDD) for(int k = 0; k < m; k++) v.push_back(lam[k]); L.add("hess", v, cat(m, nx ? " new " : " same ", nl ? "new " : "same ", s, ",", d, ",", ss, ",", sd, " ", iH != 0, jH != 0, MH != 0, HDD != 0, iS != 0, jS != 0, MS != 0)); return MDS::eval_Hess_Lagr(n, m, x, nx, of, lam, nl, s, d, ss, iH, jH, MH, HDD, sd, iS, jS, MS); } };

#ifdef HIOP_SPARSE
struct SRec : nlp::Sparse { Log L; User U; SRec(const Model& M) : nlp::Sparse(U) { U.M = &M; U.one_call = true; U.check_bounds = false; }
  bool get_prob_sizes(size_type& n, size_type& m) override { L.add("sizes", {}, ""); return Sparse::get_prob_sizes(n, m); }
  bool get_vars_info(const size_type& n, double* l, double* u, NonlinearityType* t) override { L.add("vars", {}, cat(n)); return Sparse::get_vars_info(n, l, u, t); }
  bool get_cons_info(const size_type& m, double* l, double* u, NonlinearityType* t) override { L.add("cons", {}, cat(m)); return Sparse::get_cons_info(m, l, u, t); }
  using Sparse::get_starting_point; bool get_starting_point(const size_type& n, double* x) override { L.add("start", {}, cat(n)); return Sparse::get_starting_point(n, x); }
  bool get_sparse_blocks_info(int& a, int& b, int& c, int& d) override { L.add("blocks", {}, ""); return Sparse::get_sparse_blocks_info(a, b, c, d); }
  bool eval_f(const size_type& n, const double* x, bool nx, double& v) override { L.add("f", V(x, n), nx ? "new" : "same"); return Sparse::eval_f(n, x, nx, v); }
  bool eval_grad_f(const size_type& n, const double* x, bool nx, double* g) override { L.add("grad", V(x, n), nx ? "new" : "same"); return Sparse::eval_grad_f(n, x, nx, g); }
  using Sparse::eval_cons; using Sparse::eval_Jac_cons;
  bool eval_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* c) override { L.add("cons", V(x, n), cat(m, nx ? " new" : " same")); return Sparse::eval_cons(n, m, x, nx, c); }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, const size_type& nnz, index_type* i, index_type* j, double* MJ) override
  { L.add("jac", V(x, n), cat(m, nx ? " new " : " same ", nnz, " ", i != 0, j != 0, MJ != 0)); return Sparse::eval_Jac_cons(n, m, x, nx, nnz, i, j, MJ); }
  bool eval_Hess_Lagr(const size_type& n, const size_type& m, const double* x, bool nx, const double& of, const double* lam, bool nl, const size_type& nnz, index_type* iH, index_type* jH, double* MH) override
  { vector<double> v = V(x, n); v.push_back(of); if(MH) for(int k = 0; k < m; k++) v.push_back(lam[k]); L.add("hess", v, cat(m, nx ? " new " : " same ", nl ? "new " : "same ", nnz, " ", iH != 0, jH != 0, MH != 0)); return Sparse::eval_Hess_Lagr(n, m, x, nx, of, lam, nl, nnz, iH, jH, MH); } };
#endif

struct Out { int st = -777, it = -777; double obj = -777; vector<double> x; uint64_t h = 0; vector<string> ev; };
// a problem as its user sees it
struct Prob { const Model& M; bool has_status = true, has_iters = true; Prob(const Model& m) : M(m) {} virtual ~Prob() {} virtual Out solve() = 0; virtual Log& log() = 0; virtual User& user() = 0;
  vector<double> buf() { return vector<double>(M.n + 2, -55.5); }
  Out done(Out o, vector<double>& s) { if(s[M.n] != -55.5 || s[M.n+1] != -55.5) { o.st = -999; } o.x.assign(s.begin(), s.begin() + M.n); o.h = log().h; o.ev = log().ev; log() = Log(); return o; } };
template<class R> struct Cpp : Prob { std::unique_ptr<R> r; std::unique_ptr<hiopNlpFormulation> f; bool newton; Cpp(const Model& m, R* r_, hiopNlpFormulation* f_, bool nt) : Prob(m), r(r_), f(f_), newton(nt) {}
  Log& log() override { return r->L; } User& user() override { return r->U; }
  Out solve() override { std::unique_ptr<hiopAlgFilterIPMBase> a; if(newton) a.reset(new hiopAlgFilterIPMNewton(f.get())); else a.reset(new hiopAlgFilterIPMQuasiNewton((hiopNlpDenseConstraints*)f.get()));
    Out o; o.st = a->run(); o.obj = a->getObjective(); o.it = a->getNumIterations(); auto s = buf(); a->getSolution(s.data()); return done(o, s); } };
static Prob* cpp_dense(const Model& M) { auto* r = new DRec(M); auto* f = new hiopNlpDenseConstraints(*r); set(*f->options, {{"Hessian","quasinewton_approx"},{"duals_update_type","linear"},{"duals_init","zero"},{"compute_mode","cpu"},{"KKTLinsys","xdycyd"},{"fixed_var","relax"}}); return new Cpp<DRec>(M, r, f, false); }
static Prob* cpp_mds(const Model& M, int ns) { auto* r = new MRec(M, ns); auto* f = new hiopNlpMDS(*r); set(*f->options, {{"duals_update_type","linear"},{"duals_init","zero"},{"Hessian","analytical_exact"},{"KKTLinsys","xdycyd"},{"compute_mode","hybrid"},{"verbosity_level","3"},{"mu0","1e-1"}}); return new Cpp<MRec>(M, r, f, true); }
#define R_(T) T& r = *(T*)u
#ifdef HIOP_SPARSE
static Prob* cpp_sparse(const Model& M) { auto* r = new SRec(M); auto* f = new hiopNlpSparse(*r); set(*f->options, {{"Hessian","analytical_exact"},{"KKTLinsys","xdycyd"},{"compute_mode","cpu"},{"mu0","1e-1"}}); return new Cpp<SRec>(M, r, f, true); }
struct CSparse : Prob { SRec r; cHiopSparseProblem p; vector<double> s;
  CSparse(const Model& m) : Prob(m), r(m) {
    memset(&p, 0x5a, sizeof p); s = buf(); p.user_data_ = &r; p.solution_ = s.data();
    p.get_prob_sizes_ = [](int* n, int* m, void* u) { R_(SRec); r.get_prob_sizes(*n, *m); return 0; };
    p.get_starting_point_ = [](int n, double* x, void* u) { R_(SRec); r.get_starting_point(n, x); return 0; };
    p.get_vars_info_ = [](int n, double* l, double* q, void* u) { R_(SRec); vector<hiopInterfaceBase::NonlinearityType> t(n+1); r.get_vars_info(n, l, q, t.data()); return 0; };
    p.get_cons_info_ = [](int n, double* l, double* q, void* u) { R_(SRec); vector<hiopInterfaceBase::NonlinearityType> t(n+1); r.get_cons_info(n, l, q, t.data()); return 0; };
    p.eval_f_ = [](int n, double* x, int nx, double* o, void* u) { R_(SRec); r.eval_f(n, x, nx, *o); return 0; };
    p.eval_grad_f_ = [](int n, double* x, int nx, double* g, void* u) { R_(SRec); r.eval_grad_f(n, x, nx, g); return 0; };
    p.eval_cons_ = [](int n, int m, double* x, int nx, double* c, void* u) { R_(SRec); r.eval_cons(n, m, x, nx, c); return 0; };
    p.get_sparse_blocks_info_ = [](int* a, int* b, int* c, int* d, void* u) { R_(SRec); r.get_sparse_blocks_info(*a, *b, *c, *d); return 0; };
    p.eval_Jac_cons_ = [](int n, int m, double* x, int nx, int nnz, int* i, int* j, double* MJ, void* u) { R_(SRec); r.eval_Jac_cons(n, m, x, nx, nnz, i, j, MJ); return 0; };
    p.eval_Hess_Lagr_ = [](int n, int m, double* x, int nx, double of, double* lam, int nl, int nnz, int* iH, int* jH, double* MH, void* u) { R_(SRec); r.eval_Hess_Lagr(n, m, x, nx, of, lam, nl, nnz, iH, jH, MH); return 0; };
    hiop_sparse_create_problem(&p); }
  ~CSparse() { hiop_sparse_destroy_problem(&p); }
  Log& log() override { return r.L; } User& user() override { return r.U; }
  Out solve() override { std::fill(s.begin(), s.end(), -55.5); hiop_sparse_solve_problem(&p); Out o; o.st = p.status_; o.it = p.niters_; o.obj = p.obj_value_; return done(o, s); } };
static SRec* sslot[2];   // Fortran: row and column numbers start at 1; what is wanted is told by the first argument
template<int S> struct SCB {
  static void f(int* n, double* x, int* nx, double* o) { sslot[S]->eval_f(*n, x, *nx, *o); }
  static void g(int* n, double* x, int* nx, double* o) { sslot[S]->eval_grad_f(*n, x, *nx, o); }
  static void c(int* n, int* m, double* x, int* nx, double* o) { sslot[S]->eval_cons(*n, *m, x, *nx, o); }
  static void j(int* task, int* n, int* m, double* x, int* nx, int* nnz, int* iJ, int* jJ, double* MJ) { if(*task) { iJ = jJ = nullptr; } else MJ = nullptr; sslot[S]->eval_Jac_cons(*n, *m, x, *nx, *nnz, iJ, jJ, MJ); if(!*task) for(int k = 0; k < *nnz; k++) { iJ[k]++; jJ[k]++; } }
  static void h(int* task, int* n, int* m, double* of, double* x, int* nx, double* lam, int* nl, int* nnz, int* iH, int* jH, double* MH) { if(*task) { iH = jH = nullptr; } else MH = nullptr; sslot[S]->eval_Hess_Lagr(*n, *m, x, *nx, *of, lam, *nl, *nnz, iH, jH, MH); if(!*task) for(int k = 0; k < *nnz; k++) { iH[k]++; jH[k]++; } } };
struct FSparse : Prob { SRec r; int S; void* p;
  FSparse(const Model& M, int S_) : Prob(M), r(M), S(S_) {
    sslot[S] = &r; int n = M.n, m = M.m, nx, je, ji, h; r.nlp::Sparse::get_sparse_blocks_info(nx, je, ji, h); auto xl = M.xl, xu = M.xu, cl = M.cl, cu = M.cu, x0 = M.x0; has_status = has_iters = false;
    p = S ? hiopsparseprob_(&n, &m, &je, &ji, &h, xl.data(), xu.data(), cl.data(), cu.data(), x0.data(), SCB<1>::f, SCB<1>::c, SCB<1>::g, SCB<1>::j, SCB<1>::h) : hiopsparseprob_(&n, &m, &je, &ji, &h, xl.data(), xu.data(), cl.data(), cu.data(), x0.data(), SCB<0>::f, SCB<0>::c, SCB<0>::g, SCB<0>::j, SCB<0>::h);
    n = m = je = ji = h = 77; for(auto* v : {&xl, &xu, &cl, &cu, &x0}) std::fill(v->begin(), v->end(), NAN); }
  ~FSparse() { deletehiopsparseprob_(&p); }
  Log& log() override { return r.L; } User& user() override { return r.U; }
  Out solve() override { auto s = buf(); Out o; hiopsparsesolve_(&p, &o.obj, s.data()); return done(o, s); } };
#endif
struct CDense : Prob { DRec r; cHiopDenseProblem p; vector<double> s;
  CDense(const Model& m) : Prob(m), r(m) {
    memset(&p, 0x5a, sizeof p); s = buf(); p.user_data = &r; p.solution = s.data();
    p.get_prob_sizes = [](int* n, int* m, void* u) { R_(DRec); r.get_prob_sizes(*n, *m); return 0; };
    p.get_starting_point = [](int n, double* x, void* u) { R_(DRec); r.get_starting_point(n, x); return 0; };
    p.get_vars_info = [](int n, double* l, double* q, void* u) { R_(DRec); vector<hiopInterfaceBase::NonlinearityType> t(n+1); r.get_vars_info(n, l, q, t.data()); return 0; };
    p.get_cons_info = [](int n, double* l, double* q, void* u) { R_(DRec); vector<hiopInterfaceBase::NonlinearityType> t(n+1); r.get_cons_info(n, l, q, t.data()); return 0; };
    p.eval_f = [](int n, double* x, int nx, double* o, void* u) { R_(DRec); r.eval_f(n, x, nx, *o); return 0; };
    p.eval_grad_f = [](int n, double* x, int nx, double* g, void* u) { R_(DRec); r.eval_grad_f(n, x, nx, g); return 0; };
    p.eval_cons = [](int n, int m, double* x, int nx, double* c, void* u) { R_(DRec); r.eval_cons(n, m, x, nx, c); return 0; };
    p.eval_Jac_cons = [](int n, int m, double* x, int nx, double* J, void* u) { R_(DRec); r.eval_Jac_cons(n, m, x, nx, J); return 0; };
    hiop_dense_create_problem(&p); }
  ~CDense() { hiop_dense_destroy_problem(&p); }
  Log& log() override { return r.L; } User& user() override { return r.U; }
  Out solve() override { std::fill(s.begin(), s.end(), -55.5); hiop_dense_solve_problem(&p); Out o; o.st = p.status; o.it = p.niters; o.obj = p.obj_value; return done(o, s); } };
struct CMds : Prob { MRec r; cHiopMDSProblem p; vector<double> s;
  CMds(const Model& m, int ns) : Prob(m), r(m, ns) {
    has_status = has_iters = false; memset(&p, 0x5a, sizeof p); s = buf(); p.user_data = &r; p.solution = s.data();
    p.get_prob_sizes = [](int* n, int* m, void* u) { R_(MRec); r.get_prob_sizes(*n, *m); return 0; };
    p.get_starting_point = [](int n, double* x, void* u) { R_(MRec); r.get_starting_point(n, x); return 0; };
    p.get_vars_info = [](int n, double* l, double* q, void* u) { R_(MRec); vector<hiopInterfaceBase::NonlinearityType> t(n+1); r.get_vars_info(n, l, q, t.data()); return 0; };
    p.get_cons_info = [](int n, double* l, double* q, void* u) { R_(MRec); vector<hiopInterfaceBase::NonlinearityType> t(n+1); r.get_cons_info(n, l, q, t.data()); return 0; };
    p.eval_f = [](int n, double* x, int nx, double* o, void* u) { R_(MRec); r.eval_f(n, x, nx, *o); return 0; };
    p.eval_grad_f = [](int n, double* x, int nx, double* g, void* u) { R_(MRec); r.eval_grad_f(n, x, nx, g); return 0; };
    p.eval_cons = [](int n, int m, double* x, int nx, double* c, void* u) { R_(MRec); r.eval_cons(n, m, x, nx, c); return 0; };
    p.get_sparse_dense_blocks_info = [](int* a, int* b, int* c, int* d, int* e, int* f, void* u) { R_(MRec); r.get_sparse_dense_blocks_info(*a, *b, *c, *d, *e, *f); return 0; };
    p.eval_Jac_cons = [](int n, int m, double* x, int nx, int s, int d, int nnz, int* i, int* j, double* MJ, double* JD, void* u) { R_(MRec); r.eval_Jac_cons(n, m, x, nx, s, d, nnz, i, j, MJ, JD); return 0; };
    p.eval_Hess_Lagr = [](int n, int m, double* x, int nx, double of, double* lam, int nl, int s, int d, int ss, int* iH, int* jH, double* MH, double* HDD, int sd, int* iS, int* jS, double* MS, void* u) { R_(MRec); r.eval_Hess_Lagr(n, m, x, nx, of, lam, nl, s, d, ss, iH, jH, MH, HDD, sd, iS, jS, MS); return 0; };
    hiop_mds_create_problem(&p); }
  ~CMds() { hiop_mds_destroy_problem(&p); }
  Log& log() override { return r.L; } User& user() override { return r.U; }
  Out solve() override { std::fill(s.begin(), s.end(), -55.5); hiop_mds_solve_problem(&p); Out o; o.obj = p.obj_value; return done(o, s); } };
// Fortran: everything by reference, no user data; sizes, bounds and starting point are given once
static DRec* slot[2];
template<int S> struct FCB {
  static void f(int* n, double* x, int* nx, double* o) { slot[S]->eval_f(*n, x, *nx, *o); }
  static void g(int* n, double* x, int* nx, double* o) { slot[S]->eval_grad_f(*n, x, *nx, o); }
  static void c(int* n, int* m, double* x, int* nx, double* o) { slot[S]->eval_cons(*n, *m, x, *nx, o); }
  static void j(int* n, int* m, double* x, int* nx, double* o) { slot[S]->eval_Jac_cons(*n, *m, x, *nx, o); } };
struct FDense : Prob { DRec r; int S; void* p;
  FDense(const Model& M, int S_) : Prob(M), r(M), S(S_) {
    slot[S] = &r; int n = M.n, m = M.m; auto xl = M.xl, xu = M.xu, cl = M.cl, cu = M.cu, x0 = M.x0; has_status = has_iters = false;
    p = S ? hiopdenseprob_(&n, &m, xl.data(), xu.data(), cl.data(), cu.data(), x0.data(), FCB<1>::f, FCB<1>::c, FCB<1>::g, FCB<1>::j) : hiopdenseprob_(&n, &m, xl.data(), xu.data(), cl.data(), cu.data(), x0.data(), FCB<0>::f, FCB<0>::c, FCB<0>::g, FCB<0>::j);
    n = m = 77; for(auto* v : {&xl, &xu, &cl, &cu, &x0}) std::fill(v->begin(), v->end(), NAN); }
  ~FDense() { deletehiopdenseprob_(&p); }
  Log& log() override { return r.L; } User& user() override { return r.U; }
  Out solve() override { auto s = buf(); Out o; hiopdensesolve_(&p, &o.obj, s.data()); return done(o, s); } };

struct Kind { string api, form; };
static Prob* make(const Kind& k, const Model& M, int S) {
#ifdef HIOP_SPARSE
  if(k.form == "sparse") return k.api == "cpp" ? cpp_sparse(M) : k.api == "c" ? (Prob*)new CSparse(M) : new FSparse(M, S);
#endif
  bool d = k.form == "dense"; int ns = d ? 0 : atoi(k.form.c_str()+3); if(k.api == "cpp") return d ? cpp_dense(M) : cpp_mds(M, ns); if(k.api == "c") return d ? (Prob*)new CDense(M) : (Prob*)new CMds(M, ns); return new FDense(M, S); }
static vector<string> evals(const vector<string>& e) { vector<string> r; for(auto& s : e) if(s.find(" at []") == string::npos) r.push_back(s); return r; }   // what is asked at a point (the rest is given once to the Fortran interface)
static string differs(const Prob& p, const Out& a, const Out& b, bool fortran)
{
  if(a.st == -999) return "the solution is written beyond its end";
  if(p.has_status && a.st != b.st) return cat("status ", a.st, " instead of ", b.st);
  if(p.has_iters && a.it != b.it) return cat(a.it, " iterations instead of ", b.it);
  if(!(a.obj == b.obj)) return cat("objective ", a.obj, " instead of ", b.obj);
  if(a.x != b.x) return cat("solution ", vstr(a.x), " instead of ", vstr(b.x));
  auto ea = fortran ? evals(a.ev) : a.ev, eb = fortran ? evals(b.ev) : b.ev;
  for(size_t k = 0; k < ea.size() && k < eb.size(); k++) if(ea[k] != eb[k]) return cat("callback ", k, " is '", ea[k], "' instead of '", eb[k], "'");
  if(ea.size() != eb.size()) return cat(ea.size(), " callbacks instead of ", eb.size());
  if(!fortran && a.h != b.h) return "the later callbacks differ";
  return "";
}
static const int SOLVES[2] = {2, 1};
static std::map<string, vector<Out>> memo;
static const vector<Out>& reference(const string& form, const Model& M)
{
  auto& v = memo[cat(form, (const void*)&M)]; if(v.empty()) { std::unique_ptr<Prob> p(make({"cpp", form}, M, 0)); v.push_back(p->solve()); v.push_back(p->solve()); } return v;
}
// all interleavings of the life of one problem with that of another one
static string lives(const Kind& ka, const Model& A, const Kind& kb, const Model& B, unsigned order, int steps, unsigned mask)
{
  const Kind* K[2] = {&ka, &kb}; const Model* M[2] = {&A, &B}; std::unique_ptr<Prob> P[2]; int at[2] = {0, 0};
  for(int q = 0; q < steps; q++) { int w = (mask >> q) & 1; int k = at[w]++;
    if(k == 0) { P[w].reset(make(*K[w], *M[w], w)); continue; } if(k > SOLVES[w]) { P[w].reset(); continue; }
    Out o = P[w]->solve(); auto& ref = reference(K[w]->form, *M[w]); bool fo = K[w]->api == "fortran";
    Out r = ref[std::min<size_t>(k-1, ref.size()-1)]; string d = differs(*P[w], o, r, fo); if(d.empty()) for(auto& b : P[w]->user().bad) { d = b; break; }
    if(!d.empty()) return cat(K[w]->api, " ", M[w]->name, " solve ", k, ": ", d); }
  return "";
}
static size_t used() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
void mc_body()
{
  if(!freopen("/dev/null", "w", stdout)) abort();
  auto fam = family(true);
  for(size_t a = 0; a < fam.size(); a++) { const Model& A = fam[a];
    vector<string> forms = {"dense"}; if(!A.nfixed()) for(int k = 0; k <= A.n; k++) if(MDS::fits(A, k)) forms.push_back(cat("mds", k));
#ifdef HIOP_SPARSE
    if(A.nfixed()) continue; forms = {"sparse"};
#endif
    for(auto& form : forms) {
      if(!begin(cat("c:", A.name, ":", form))) continue; memo.clear();
      vector<Kind> ka = {{"c", form}}; if(form == "dense" || form == "sparse") ka.push_back({"fortran", form});
      // files of options reach problems made through any of the interfaces
      for(string file : {"", "max_iter 3\n", "mu0 0.01\nscaling_type none\n"}) {
        if(!opt.thorough && !file.empty() && form != "dense" && form != forms.back()) continue;
        if(file.empty()) unlink("hiop.options"); else { FILE* f = fopen("hiop.options", "w"); fputs(file.c_str(), f); fclose(f); } memo.clear();
        size_t lo = file.empty() ? (opt.thorough ? 3 : 1) : 1;
        for(auto& k : ka) for(size_t d = 1; d <= lo; d++) { const Model& B = fam[(a+d) % fam.size()]; vector<Kind> kb = {{"c", "dense"}, {"fortran", "dense"}}; if(!B.nfixed()) kb.push_back({"c", "mds0"});
#ifdef HIOP_SPARSE
          kb.pop_back(); if(!B.nfixed()) { kb[0] = {"c", "sparse"}; kb.push_back({"fortran", "sparse"}); }
#endif
          if(!file.empty()) kb.resize(1);
          for(auto& q : kb) { Isolated ok = isolated([&]() -> string { reference(k.form, A); reference(q.form, B); return ""; }); if(ok.kind != Isolated::Ok) { count("reference-abnormal"); continue; } reference(k.form, A); reference(q.form, B);   // in this process, for all of the histories
            int la = SOLVES[0]+2, lb = SOLVES[1]+2; bool stop = false;
            for(unsigned mask = 0; mask < (1u << (la+lb)) && !stop; mask++) if(__builtin_popcount(mask) == lb) {
              if(!opt.thorough && !file.empty() && mask != 0x70) continue;
              Isolated is = isolated([&]() { return lives(k, A, q, B, 0, la+lb, mask); }); trace(); trans(la+lb); state(hs(hs(hs(hs(mask, k.api+form), A.name), q.api+q.form), file));
              if(is.kind != Isolated::Ok) { fail("c-abnormal", cat(k.api, " ", file, " order ", mask, ": ", is.text)); stop = true; } else if(!is.text.empty()) { fail("c-differs", cat(k.api, " ", file, "order ", mask, ": ", is.text)); stop = true; } } } }
      }
      unlink("hiop.options");
      for(auto& k : ka) { auto round = [&]() { std::unique_ptr<Prob> p(make(k, A, 0)); }; // a life without a solve keeps nothing
        size_t u = used(); long kept = 1L << 40; for(int w = 0; w < 5; w++) { for(int i = 0; i < 50; i++) round(); size_t v = used(); if(w) kept = std::min(kept, (long)v-(long)u); u = v; }   // a leak shows in every window, the allocator's own bookkeeping does not
        trace(); if(kept > 50*8*std::max(1, A.n)/2 && kept > 100) fail("c-memory", cat(k.api, ": ", kept, " bytes kept by 50 problems")); }
    } }
}
