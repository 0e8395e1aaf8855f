// T01: the problem HiOp works on internally is the user's problem, with variables removed or relaxed, constraints split and everything
// scaled as the options say: every shape x data x options x sequence of evaluations on the real formulation objects.
#include "form.hpp"
using namespace kf;

static std::string bad;
#define require(ok, ...) do { if(!(ok) && bad.empty()) bad = __VA_ARGS__; } while(0)
static void cmp(const std::string& w, const V& g, const V& e) { require(g.size() == e.size(), cat(w, " has ", g.size(), " elements instead of ", e.size())); for(size_t i = 0; i < e.size() && i < g.size(); i++) if(!same(g[i], e[i])) { require(false, cat(w, "[", i, "] is ", g[i], " instead of ", e[i])); return; } }
static void cmp1(const std::string& w, double g, double e) { require(same(g, e), cat(w, " is ", g, " instead of ", e)); }

static V dense(hiopMatrix* J, int m, int n, int ns)
{
  V r(m*n, 0.);
  if(auto* D = dynamic_cast<hiopMatrixMDS*>(J)) {
    auto* T = dynamic_cast<const hiopMatrixSparseTriplet*>(D->sp_mat()); for(int p = 0; p < T->numberOfNonzeros(); p++) r[T->i_row()[p]*n+T->j_col()[p]] += T->M()[p];
    for(int i = 0; i < m; i++) for(int j = ns; j < n; j++) r[i*n+j] = D->de_mat()->local_data_const()[i*(n-ns)+j-ns];
  } else if(auto* H = dynamic_cast<hiopMatrixSymBlockDiagMDS*>(J)) {
    auto* T = dynamic_cast<const hiopMatrixSparseTriplet*>(H->sp_mat()); for(int p = 0; p < T->numberOfNonzeros(); p++) r[T->i_row()[p]*n+T->j_col()[p]] += T->M()[p];
    for(int i = ns; i < n; i++) for(int j = ns; j < n; j++) { int a = std::min(i, j), b = std::max(i, j); r[i*n+j] = H->de_mat()->local_data_const()[(a-ns)*(n-ns)+b-ns]; }
  } else if(auto* T = dynamic_cast<hiopMatrixSparseTriplet*>(J)) {
    bool sym = dynamic_cast<hiopMatrixSymSparseTriplet*>(J) != nullptr; for(int p = 0; p < T->numberOfNonzeros(); p++) { int i = T->i_row()[p], j = T->j_col()[p]; if(i < 0 || i >= m || j < 0 || j >= n) { require(false, "index outside the matrix"); continue; } r[i*n+j] += T->M()[p]; if(sym && i != j) r[j*n+i] += T->M()[p]; }
  } else { auto* E = dynamic_cast<hiopMatrixDense*>(J); for(int i = 0; i < m*n; i++) r[i] = E->local_data()[i]; }
  return r;
}
struct Obj {
  nlp::User u; std::unique_ptr<nlp::Instance> in; hiopNlpFormulation* f; const Model& M; int ns = 0; bool hess; Ref R; std::unique_ptr<hiopVector> x, g, c, d, yc, yd; std::unique_ptr<hiopMatrix> Jc, Jd, H; V cur; bool have = false;
  Obj(const Model& M_, const std::string& form, bool one_call, const Opts& o) : M(M_), R(M_, o)
  {
    u.M = &M; u.one_call = one_call; u.check_bounds = false; in.reset(new nlp::Instance(u, form, o)); f = in->f.get(); hess = form != "dense"; if(form.compare(0, 3, "mds") == 0) ns = atoi(form.c_str()+3);
    if(!f->finalizeInitialization()) { require(false, "finalizeInitialization fails"); return; }
    x.reset(f->alloc_primal_vec()); g.reset(f->alloc_primal_vec()); c.reset(f->alloc_dual_eq_vec()); d.reset(f->alloc_dual_ineq_vec()); yc.reset(f->alloc_dual_eq_vec()); yd.reset(f->alloc_dual_ineq_vec()); Jc.reset(f->alloc_Jac_c()); Jd.reset(f->alloc_Jac_d()); if(hess) H.reset(f->alloc_Hess_Lagr());
  }
  void shape()
  {
    int n = R.keep.size(); cmp1("number of variables", f->n(), n); cmp1("number of constraints", f->m(), M.m); cmp1("number of equalities", f->m_eq(), R.eq.size()); cmp1("number of inequalities", f->m_ineq(), R.in.size());
    V il, iu, jl, ju; int nl = 0, nu = 0, ml = 0, mu = 0; for(int i : R.keep) { il.push_back(M.xl[i] > -INF); iu.push_back(M.xu[i] < INF); nl += il.back(); nu += iu.back(); } for(int k : R.in) { jl.push_back(M.cl[k] > -INF); ju.push_back(M.cu[k] < INF); ml += jl.back(); mu += ju.back(); }
    cmp("lower-bound pattern", get(&f->get_ixl()), il); cmp("upper-bound pattern", get(&f->get_ixu()), iu); cmp("idl", get(&f->get_idl()), jl); cmp("idu", get(&f->get_idu()), ju);
    cmp1("n_low", f->n_low(), nl); cmp1("n_upp", f->n_upp(), nu); cmp1("m_ineq_low", f->m_ineq_low(), ml); cmp1("m_ineq_upp", f->m_ineq_upp(), mu); cmp1("n_complem", f->n_complem(), nl+nu+ml+mu); cmp1("n_low_local", f->n_low_local(), nl);
  }
  void bounds(const V& xl, const V& xu, const V& dl, const V& du) const
  {
    auto b = [&](const std::string& w, const V& g, const V& e, const V& pat) { for(size_t i = 0; i < e.size() && i < g.size(); i++) if(pat[i] && !same(g[i], e[i])) require(false, cat(w, "[", i, "] is ", g[i], " instead of ", e[i])); };
    b("xl", get(&f->get_xl()), xl, get(&f->get_ixl())); b("xu", get(&f->get_xu()), xu, get(&f->get_ixu())); b("dl", get(&f->get_dl()), dl, get(&f->get_idl())); b("du", get(&f->get_du()), du, get(&f->get_idu())); cmp("equality right-hand side", get(&f->get_crhs()), R.cr);
  }
  void bounds() const { bounds(R.xl, R.xu, R.dl, R.du); }
  V point(int k) const { V r; for(size_t i = 0; i < R.keep.size(); i++) r.push_back(k == 0 ? M.x0[R.keep[i]] : k == 1 ? 0.5+0.75*i : -1.25+0.5*i); return r; }
  // one evaluation; p < 0: again at the current point with new_x = false
  void step(int op, int p)
  {
    if(op == 4 && !hess) return;
    bool nx = p >= 0; if(nx) cur = point(p); else if(!have) return; have = true; put(x.get(), cur); int n = R.keep.size(); V X = cur; trans();
    if(op == 0) { double v = -7; require(f->eval_f(*x, nx, v), "eval_f fails"); cmp1("objective", v, R.f(cur)); }
    if(op == 1) { g->setToConstant(3.5); require(f->eval_grad_f(*x, nx, *g), "eval_grad_f fails"); cmp("gradient", get(g.get()), R.grad(cur)); }
    if(op == 2) { c->setToConstant(3.5); d->setToConstant(3.5); require(f->eval_c_d(*x, nx, *c, *d), "eval_c_d fails"); cmp("equalities", get(c.get()), R.cons(cur, R.eq, R.sc)); cmp("inequalities", get(d.get()), R.cons(cur, R.in, R.sd)); }
    if(op == 3) { require(f->eval_Jac_c_d(*x, nx, *Jc, *Jd), "eval_Jac_c_d fails"); cmp("Jacobian of the equalities", dense(Jc.get(), R.eq.size(), n, ns), R.jac(cur, R.eq, R.sc)); cmp("Jacobian of the inequalities", dense(Jd.get(), R.in.size(), n, ns), R.jac(cur, R.in, R.sd)); }
    if(op == 4) { V a, b; for(size_t k = 0; k < R.eq.size(); k++) a.push_back(0.5+k+0.25*(p+1)); for(size_t k = 0; k < R.in.size(); k++) b.push_back(-1.5+2*k-0.125*(p+1)); put(yc.get(), a); put(yd.get(), b); double of = p == 1 ? 1 : p == 2 ? 0 : 0.75;
      require(f->eval_Hess_Lagr(*x, nx, of, *yc, *yd, true, *H), "eval_Hess_Lagr fails"); cmp("Hessian", dense(H.get(), n, n, ns), R.hess(cur, of, a, b)); cmp("multipliers given to the Hessian evaluation", get(yc.get()), a); cmp("inequality multipliers given to the Hessian evaluation", get(yd.get()), b); }
    cmp("point of evaluation", get(x.get()), X); for(auto& s : u.bad) require(false, s);
  }
  void rest(double relax2)
  {
    int n = R.keep.size(); V X = point(1); put(x.get(), X); V ux(M.n+2, -777.); f->user_x(*x, ux.data()+1); V e = R.full(X); for(int i = 0; i < M.n; i++) require(same(ux[i+1], e[i]), cat("user_x[", i, "] is ", ux[i+1], " instead of ", e[i])); require(ux[0] == -777 && ux[M.n+1] == -777, "user_x writes outside");
    double ob = 2.75; cmp1("user_obj", f->user_obj(ob), 2.75/R.so); cmp1("objective scale", f->get_obj_scale(), R.so);
    hiopIterate it(f); Full F; Shape S; S.n = n; S.me = R.eq.size(); S.mi = R.in.size(); F = full(S); int cnt = 0; for(auto* q : parts(F)) for(double& v : *q) v = 0.25+0.5*(++cnt); load(it, F);
    V zl(M.n+1, -777), zu(M.n+1, -777), la(M.m+1, -777); f->get_dual_solutions(it, zl.data(), zu.data(), la.data()); V ez(M.n, 0.), eu(M.n, 0.), el(M.m, 0.); for(int i = 0; i < n; i++) { ez[R.keep[i]] = F.zl[i]/R.so; eu[R.keep[i]] = F.zu[i]/R.so; } for(size_t k = 0; k < R.eq.size(); k++) el[R.eq[k]] = F.yc[k]*R.sc[k]/R.so; for(size_t k = 0; k < R.in.size(); k++) el[R.in[k]] = F.yd[k]*R.sd[k]/R.so;
    require(zl[M.n] == -777 && zu[M.n] == -777 && la[M.m] == -777, "get_dual_solutions writes outside"); zl.pop_back(); zu.pop_back(); la.pop_back(); cmp("zl for the user", zl, ez); cmp("zu for the user", zu, eu); cmp("lambda for the user", la, el); cmp("iterate's zl", get(it.get_zl()), F.zl); cmp("iterate's yd", get(it.get_yd()), F.yd); trans();
    // moving the bounds: to the iterate's slacks, and to another relaxation of the user's bounds
    if(R.relax > 0) for(double r : {relax2, 0.}) { V a, b, cc, dd; for(int i : R.keep) { a.push_back(M.xl[i]-r*std::max(1., std::fabs(M.xl[i]))); b.push_back(M.xu[i]+r*std::max(1., std::fabs(M.xu[i]))); } for(size_t k = 0; k < R.in.size(); k++) { cc.push_back(R.sd[k]*(R.dl0[k]-r*std::max(1., std::fabs(R.dl0[k])))); dd.push_back(R.sd[k]*(R.du0[k]+r*std::max(1., std::fabs(R.du0[k])))); } f->reset_bounds(r); bounds(a, b, cc, dd); trans(); }
    { V a, b, cc, dd; for(int i = 0; i < n; i++) { a.push_back(F.x[i]-F.sxl[i]); b.push_back(F.x[i]+F.sxu[i]); } for(int k = 0; k < S.mi; k++) { cc.push_back(F.d[k]-F.sdl[k]); dd.push_back(F.d[k]+F.sdu[k]); } f->adjust_bounds(it); bounds(a, b, cc, dd); shape(); trans(); }
  }
};
static void one(const Model& M, const std::string& form, bool oc, const Opts& o, int depth, const std::string& what)
{
  Ref T(M, o); if(T.keep.empty()) return;
  const int alpha = 15; I seq(depth, 0); bool first = true; uint64_t h = hs(hs(0, what+form), nlp::ostr(o)+(oc ? "1" : ""));
  // sequences of evaluations: before scaling (one of the two-call/one-call detection paths), then scaling, then the sequence
  do {
    Obj O(M, form, oc, o); if(!bad.empty()) break;
    if(first) { O.shape(); O.bounds(); }
    int pre = seq[0] % 3; for(int k = 0; k < pre; k++) O.step(k == 0 ? 3 : 2, k);     // what was evaluated before must not matter
    for(int op : {0, 1, 2, 3}) O.step(op, op == 0 ? 0 : -1);
    Ref before = O.R; O.R.scale(O.point(0), o); bool s = O.f->apply_scaling(*O.c, *O.d, *O.g, *O.Jc, *O.Jd); require(s == O.R.scaled, cat("apply_scaling returns ", s)); O.bounds();
    for(int q : seq) { O.step(q/3, q%3 == 2 ? -1 : 1+q%3); if(!bad.empty()) break; }
    if(first) O.rest(0.25); first = false; trace(); for(int q : seq) h = mix(h, q); state(h);
    if(!bad.empty()) { std::string t; for(int q : seq) t += cat(" ", "fgcJH"[q/3], q%3); fail("formulation", cat(what, " ", form, oc ? " one-call" : "", " ", nlp::ostr(o), " sequence", t, ": ", bad)); break; }
  } while(advance(seq, I(depth, alpha)));
  bad.clear();
}
void mc_body()
{
  std::vector<Opts> os = { {}, {{"scaling_type","none"}}, {{"scaling_max_grad","10"}}, {{"scaling_max_obj_grad","5"}}, {{"scaling_max_con_grad","2"}}, {{"scaling_max_con_grad","2"},{"scaling_max_obj_grad","1e-3"}}, {{"scaling_max_grad","10"},{"scaling_min_grad","0.4"}}, {{"scaling_max_grad","10"},{"scaling_min_grad","0"}},
    {{"bound_relax_perturb","0.25"}}, {{"bound_relax_perturb","0"},{"fixed_var","relax"}}, {{"bound_relax_perturb","0"},{"fixed_var","relax"},{"fixed_var_perturb","0.01"}}, {{"fixed_var","remove"}}, {{"fixed_var","remove"},{"scaling_max_grad","10"}}, {{"fixed_var","remove"},{"bound_relax_perturb","0"},{"scaling_type","none"}}, {{"fixed_var","remove"},{"scaling_max_con_grad","2"}}, {{"bound_relax_perturb","0"}} };
  for(int n = 1; n <= (opt.thorough ? 4 : 3); n++) for(int m = 0; m <= 3; m++) shapes(n, m, n+m > (opt.thorough ? 4 : 3) || n > 3, [&](const I& vt, const I& ct) {
    bool anyfix = false; for(int t : vt) anyfix = anyfix || t >= 4;
    std::vector<std::string> forms = nlp::forms(n);
    for(auto& form : forms) { if(!mc::begin(cat("form:", form, ":", shape_name(vt, ct)))) continue; for(int data = 0; data < 3; data++) { Model M = shape_model(vt, ct, nlp::ns_of(form, n, data), data);
        for(int oc = 0; oc < 2; oc++) for(auto& o : os) {
          bool rem = false, rlx = false, zero = false; for(auto& p : o) { if(p.k == "fixed_var") { rem = p.v == "remove"; rlx = p.v == "relax"; } if(p.k == "bound_relax_perturb") zero = p.v == "0"; }
          if((rem || rlx) && !anyfix && data > 0) continue; if(anyfix && zero && !rem && !rlx) continue; if(rem && anyfix && form != "dense") continue;   // documented limits of 'remove'; fixed variables must be dealt with
          one(M, form, oc, o, (opt.thorough && n+m <= 3 && data == 1) || (n == 2 && m == 2 && data == 1 && vt[0] == 4 && vt[1] == 3) ? 2 : 1, shape_name(vt, ct)+cat(" data ", data)); } } }
  });
}
