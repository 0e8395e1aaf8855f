// The rules of the filter line-search interior-point method, monitored on every step of the real solver: the scaled errors, termination, the
// barrier parameter, trial steps, acceptance, the filter, second-order corrections, restoration, multiplier steps.  The solver is observed by
// overriding the methods it declares virtual; every decision it takes is compared with a reference computed from the data it was taken on.
#include "kfix.hpp"
#include "hiopLogBarProblem.hpp"
#include "hiopFilter.hpp"
using namespace kf;
using std::string;

static double one(const V& v) { double r = 0; for(double x : v) r += std::fabs(x); return r; }
static double inf(const V& v) { double r = 0; for(double x : v) r = std::max(r, std::fabs(x)); return r; }
// what the run was given
struct Par {
  double mu0, kappa_mu, theta_mu, tol, dual_tol, cons_tol, comp_tol, rtol, tau_min, kappa_eps, smax, acc_tol, eta_phi, min_step, mrel, mabs, tmaxf, tminf, kappa_soc, er0, er1; int max_iter, acc_it, max_soc;
  bool disable, resto, elastic, scaled, lsq, safe; string hess;
  void read(hiopOptions& o)
  {
    auto g = [&](const char* k) { return o.GetNumeric(k); };
    mu0 = g("mu0"); kappa_mu = g("kappa_mu"); theta_mu = g("theta_mu"); tol = g("tolerance"); dual_tol = g("dual_tol"); cons_tol = g("cons_tol"); comp_tol = g("comp_tol"); rtol = g("rel_tolerance"); tau_min = g("tau_min"); kappa_eps = g("kappa_eps");
    smax = g("smax"); acc_tol = g("acceptable_tolerance"); eta_phi = g("eta_phi"); min_step = g("min_step_size"); mrel = g("moving_lim_rel"); mabs = g("moving_lim_abs"); tmaxf = g("theta_max_fact"); tminf = g("theta_min_fact"); kappa_soc = g("kappa_soc");
    er0 = g("elastic_mode_bound_relax_initial"); er1 = g("elastic_mode_bound_relax_final"); max_iter = o.GetInteger("max_iter"); acc_it = o.GetInteger("acceptable_iterations"); max_soc = o.GetInteger("max_soc_iter");
    disable = o.GetString("accept_every_trial_step") == "yes"; resto = o.GetString("force_resto") == "yes"; elastic = o.GetString("elastic_mode") != "none"; scaled = o.GetString("elastic_bound_strategy") == "mu_scaled"; safe = o.GetString("linsol_mode") == "stable"; hess = o.GetString("Hessian");
    lsq = o.GetString("duals_update_type") == "lsq";
  }
};
// termination: the status after this iteration, Pending to go on
struct Errs { double nlp, optim, feas, complem, viol, log; };
struct Term {
  Errs first; bool have = false; int nacc = 0;
  int go(const Par& P, const Errs& e, int iter)
  {
    if(!have) { first = e; have = true; }
    if(e.nlp <= P.tol && e.optim <= P.dual_tol && e.viol <= P.cons_tol && e.complem <= P.comp_tol) return Solve_Success;
    if(iter >= P.max_iter) return Max_Iter_Exceeded;
    if(P.rtol > 0 && e.optim <= P.rtol*first.optim && e.feas <= P.rtol*first.feas && e.complem <= std::max(P.rtol, 1e-6)*std::min(1., first.complem)) return Solve_Success_RelTol;
    nacc = e.nlp <= P.acc_tol ? nacc+1 : 0;
    return nacc >= P.acc_it ? Solve_Acceptable_Level : NlpSolve_Pending;
  }
};
#define REQ(ok, ...) do { if(ok) m.trans++; else req(false, __VA_ARGS__); } while(0)
struct Mon {   // what was seen
  string bad; long trans = 0; std::map<string, long> n; std::vector<uint64_t> h;
  void require(bool ok, const string& s) { if(!ok && bad.empty()) bad = s; }
};
template<class B> class Spy : public B {
public:
  Par P; Mon& m; Term term; int expect = NlpSolve_Pending, iter = -1, stop_at = -1; bool poison = false; string where = "start";
  const nlp::Model* M = nullptr; bool unscaled = false, weak = false;
  struct Ev { double mu, err; }; std::vector<Ev> evals; double mu_start = 0, err_start = 0;
  bool fresh = true, searched = false, in_soc = false, fr_called = false, fr_done = false, accepted = false, soc_accepted = false;
  Full prev, dir0, acc; double alpha0 = 0, last_alpha = 0, D0 = 0, Dsoc = 0, phi0 = 0, theta0 = 0, f_acc = 0; int trials = 0, soc_trials = 0, status = -1, rep_status = -1, rep_num = 0, rep_soc = 0, rep_fr = 0; double adual = 0, tht = 0, pht = 0, aprim = 0, soc_last = 0; V csoc, dsoc; double soc_alpha = 0;
  std::vector<std::pair<double, double>> filt; V ixl, ixu, idl, idu; double tmax = -1, tmin = -1;
  template<class F> Spy(F* f, Mon& m_) : B(f), m(m_) {}
  void req(bool ok, const string& s) { m.require(ok, cat("iteration ", this->iter_num_, ", ", where, ": ", s)); m.trans++; }
  void eq(const char* w, double g, double e, double size) { REQ(g == e || std::fabs(g-e) <= 1e-11*size+1e-300, cat(w, " is ", g, " instead of ", e)); }
  void veq(const string& w, const V& g, const V& e, double rel = 1e-12) { for(size_t i = 0; i < g.size(); i++) if(!(std::fabs(g[i]-e[i]) <= rel*(1+std::fabs(e[i])))) { REQ(false, cat(w, "[", i, "] is ", g[i], " instead of ", e[i])); return; } m.trans++; }
  bool ex(int k, size_t i) const { const V* p[] = {&ixl, &ixu, &idl, &idu}; return (*p[(k-4) % 4])[i] == 1; }
  void patterns() { auto* N = this->get_nlp(); ixl = get(&N->get_ixl()); ixu = get(&N->get_ixu()); idl = get(&N->get_idl()); idu = get(&N->get_idu()); }
  void ftb(Full& t, Full& d, double tau, double& ap, double& ad) { ap = ad = 1; auto q = parts(t), e = parts(d); for(int k = 4; k < 12; k++) for(size_t i = 0; i < q[k]->size(); i++) if(ex(k, i) && (*e[k])[i] < 0) { double& a = k < 8 ? ap : ad; a = std::min(a, -tau*(*q[k])[i]/(*e[k])[i]); } }
  double limited(double a, const V& dx) { if(P.mrel > 0) return a*P.mrel; if(P.mabs > 0 && a*inf(dx) > P.mabs) return P.mabs/inf(dx); return a; }
  double barrier(double f, Full& t, double mu, double* size = nullptr)
  {
    double r = f, z = std::fabs(f); auto q = parts(t); const double kd = 1e-5;
    for(int k = 4; k < 8; k++) for(size_t i = 0; i < q[k]->size(); i++) if(ex(k, i)) { double s = (*q[k])[i]; r -= mu*std::log(s); z += mu*std::fabs(std::log(s)); if(!ex(k ^ 1, i)) { r += kd*mu*s; z += kd*mu*s; } }
    if(size) *size = z;
    return r;
  }
  double slope(Full& t, Full& d, double mu, double& size)
  {
    V g = get(this->_grad_f); double r = 0; size = 0; auto add = [&](double v) { r += v; size += std::fabs(v); }; const double kd = 1e-5;
    for(size_t i = 0; i < g.size(); i++) { double v = g[i]; add(v*d.x[i]); if(ex(4, i)) add(-mu/t.sxl[i]*d.x[i]); if(ex(5, i)) add(mu/t.sxu[i]*d.x[i]); if(ex(4, i) && !ex(5, i)) add(kd*mu*d.x[i]); if(!ex(4, i) && ex(5, i)) add(-kd*mu*d.x[i]); }
    for(size_t i = 0; i < t.d.size(); i++) { if(ex(6, i)) add(-mu/t.sdl[i]*d.d[i]); if(ex(7, i)) add(mu/t.sdu[i]*d.d[i]); if(ex(6, i) && !ex(7, i)) add(kd*mu*d.d[i]); if(!ex(6, i) && ex(7, i)) add(-kd*mu*d.d[i]); }
    return r;
  }
  double infeas(Full& t, const V& c, const V& d) { V r = get(&this->get_nlp()->get_crhs()); double s = 0; for(size_t i = 0; i < c.size(); i++) s += std::fabs(r[i]-c[i]); for(size_t i = 0; i < d.size(); i++) s += std::fabs(t.d[i]-d[i]); return s; }
  bool infilter(double t, double p) { for(auto& e : filt) if(t >= e.first && p >= e.second) return true; return false; }
  void grow(double t, double p) { std::vector<std::pair<double, double>> k; for(auto& e : filt) if(!(e.first >= t && e.second >= p)) k.push_back(e); filt = k; for(auto& e : filt) if(t >= e.first && p >= e.second) return; filt.push_back({t, p}); }   // entries another entry covers say nothing
  void samefilter()
  {
    std::vector<double> T, Q; for(auto& e : filt) { for(double s : {-1., 0., 1.}) { T.push_back(e.first+s*1e-9*(1+std::fabs(e.first))); Q.push_back(e.second+s*1e-9*(1+std::fabs(e.second))); } } T.push_back(0); Q.push_back(1e19); T.push_back(1e19); Q.push_back(-1e19);
    auto same = [&](double t, double p) { if(this->filter.contains(t, p) == infilter(t, p)) return true; req(false, cat("the filter ", infilter(t, p) ? "lacks" : "rejects", " (", t, ",", p, ")")); return false; };
    if(filt.size() > 20) { for(size_t i = 0; i < T.size(); i++) for(size_t j = i/3*3; j < i/3*3+3 && j < Q.size(); j++) if(!same(T[i], Q[j]) || !same(T[i], Q[(j+3) % Q.size()])) return; return; }
    for(double t : T) for(double p : Q) if(!same(t, p)) return;
  }
  // ---- R1
  bool evalNlpAndLogErrors(const hiopIterate& it, const hiopResidual& r, const double& mu, double& no, double& nf, double& nc, double& nn, double& lo, double& lf, double& lc, double& ll, double& cv) override
  {
    if(ixl.empty()) { P.read(*this->get_nlp()->options); patterns(); }
    settle();
    double muv = mu; bool ok = B::evalNlpAndLogErrors(it, r, mu, no, nf, nc, nn, lo, lf, lc, ll, cv); where = "errors";
    Full t = save(it); double nb = one(t.zl)+one(t.zu)+one(t.vl)+one(t.vu), ne = one(t.yc)+one(t.yd); int n = 0; for(auto* p : {&ixl, &ixu, &idl, &idu}) for(double v : *p) n += v == 1; int mm = t.yc.size()+t.yd.size();
    double sd = std::min(1e8, std::max(P.smax, n+mm ? (nb+ne)/(n+mm) : 0.)/P.smax), sc = n ? std::min(1e8, std::max(P.smax, nb/n)/P.smax) : 0; double so = 0, sv = 0, scm = 0, sl = 0, slc = 0, x; r.getNlpErrors(so, x, scm, sv); r.getBarrierErrors(sl, x, slc);
    if(n+mm) { double e = std::max({so/sd, sv, sc > 0 ? scm/sc : 0.}); eq("scaled error", nn, e, e); e = std::max({sl/sd, sv, sc > 0 ? slc/sc : 0.}); eq("scaled barrier error", ll, e, e); }
    eq("dual infeasibility", no, so, so); eq("complementarity", nc, scm, scm); eq("constraint violation", cv, sv, sv); evals.push_back({muv, ll}); return ok;
  }
  // the step that led to the present iterate
  void settle()
  {
    if(!searched) return;
    searched = false; where = "step"; Full now = save(*this->it_curr);
    rep_status = P.disable ? 0 : status; rep_num = P.disable ? 1 : trials; rep_soc = soc_accepted; rep_fr = fr_done;
    if(fr_done) { m.n["restorations"]++; samefilter(); return; }
    Full d = save(*this->dir); double ap, ad; ftb(prev, d, adual_tau, ap, ad);
    if(P.disable) { m.n["steps_without_search"]++; eq("step of accept_every_trial_step", this->_alpha_primal, alpha0, alpha0); }
    else if(!accepted) { REQ(!P.safe, "a step was taken although no trial point was accepted and nothing restored"); return; }
    eq("dual step", this->_alpha_dual, ad, ad); m.n["steps"]++;
    V x(prev.x), dd(prev.d); for(size_t i = 0; i < x.size(); i++) x[i] += this->_alpha_primal*d.x[i]; for(size_t i = 0; i < dd.size(); i++) dd[i] += this->_alpha_primal*d.d[i];
    veq("x after the step", now.x, x); veq("d after the step", now.d, dd);
    if(accepted) { veq("accepted x", now.x, acc.x, 0); veq("accepted d", now.d, acc.d, 0); eq("objective", this->_f_nlp, f_acc, 0); for(int k = 4; k < 8; k++) veq(cat("accepted ", pname(k)), *parts(now)[k], *parts(acc)[k], 0); }
    auto q = parts(prev), e = parts(d), g = parts(now); const double ks = 1e10;
    for(int k = 8; k < 12; k++) for(size_t i = 0; i < q[k]->size(); i++) { double z = (*q[k])[i]+this->_alpha_dual*(*e[k])[i]; if(ex(k, i)) { double c = adual_mu/(*g[k-4])[i]; z = std::max(std::min(z, c*ks), c/ks); REQ(std::fabs((*g[k])[i]-z) <= 1e-11*(std::fabs(z)+std::fabs((*q[k])[i])), cat(pname(k), "[", i, "] is ", (*g[k])[i], " instead of ", z)); REQ((*g[k])[i] > 0 && (*g[k-4])[i] > 0, cat(pname(k), "[", i, "] or its slack is not positive")); } }
    if(!P.lsq) for(int k = 2; k < 4; k++) { V y = *q[k]; for(size_t i = 0; i < y.size(); i++) y[i] += this->_alpha_primal*(*e[k])[i]; veq(cat(pname(k), " after the step"), *g[k], y, 1e-11); }
    // the filter takes the accepted point unless the switching condition and Armijo's hold
    if(accepted) {
      bool may_add = status == 2, may_skip = status == 3;
      if(status == 1) for(double D : {D0, soc_accepted ? Dsoc : D0}) { for(double e : {-1e-10, 0., 1e-10}) { bool sw = D < 0 && this->_alpha_primal*std::pow(-D, 2.3) > std::pow(theta0, 1.1)*(1+e), ar = pht <= phi0+P.eta_phi*this->_alpha_primal*D+e*(1+std::fabs(phi0)); (sw && ar ? may_skip : may_add) = true; } }
      if(P.resto && this->iter_num_ == 2) may_add = false, may_skip = true;
      if(may_add && (!may_skip || this->filter.contains(tht, pht))) { grow(tht, pht); m.n["filter_additions"]++; }
    }
    samefilter();
  }
  double adual_tau = 0, adual_mu = 0;
  void outputIteration(int ls, int num, int soc, int fr) override
  {
    where = "report"; REQ(evals.size() == 1, cat(evals.size(), " error evaluations before the report"));
    if(!fresh) { REQ(ls == rep_status, cat("line-search status ", ls, " instead of ", rep_status)); REQ(num == rep_num, cat(num, " trial points reported instead of ", rep_num)); REQ((soc != 0) == (rep_soc != 0), "second-order correction misreported"); REQ((fr != 0) == (rep_fr != 0), "restoration misreported"); }
    else REQ(ls == -1, "line-search status reported before the first step");
    REQ(expect == NlpSolve_Pending, "goes on after the termination test was met"); iter++; REQ(this->iter_num_ == iter, cat("iteration number ", this->iter_num_, " instead of ", iter));
    Errs e{this->_err_nlp, this->_err_nlp_optim, this->_err_nlp_feas, this->_err_nlp_complem, this->_err_cons_violation, this->_err_log};
    expect = iter == stop_at ? User_Stopped : term.go(P, e, iter); mu_start = this->_mu; err_start = evals.empty() ? 0 : evals.back().err; if(fresh) eq("first mu", mu_start, P.mu0, 0); evals.clear(); fresh = false; fr_called = false; first_search = true; accepted = soc_accepted = false; trials = 0; status = -1;
    m.h.push_back(hd(hd(hd(hs(0, "it"), e.nlp), mu_start), ls)); m.n["iterations"]++;
  }
  bool first_search = true;
  void mus()
  {
    where = "barrier parameter"; double mu = mu_start, err = err_start, obj = this->get_nlp()->get_obj_scale(); size_t k = 0; bool red = false;
    if(iter == 0) { double th = infeas_curr(); tmax = P.tmaxf*std::max(1., th); tmin = P.tminf*std::max(1., th); eq("theta_max", this->theta_max, tmax, tmax); eq("theta_min", this->theta_min, tmin, tmin); tmax = this->theta_max; tmin = this->theta_min; filt = {{tmax, -1e20}}; }
    while(err <= P.kappa_eps*mu) {
      double nm = std::max(std::min(P.kappa_mu*mu, std::pow(mu, P.theta_mu)), std::min(P.tol, P.comp_tol/obj)/11.);
      if(std::fabs(nm-mu) < 1e-16) break;
      if(k >= evals.size()) { REQ(false, cat("mu=", mu, " was not reduced although the barrier error is ", err)); return; }
      eq("new mu", evals[k].mu, nm, nm); mu = evals[k].mu; err = evals[k].err; k++; red = true; m.n["mu_reductions"]++;
      if(P.elastic) { elastic(mu); break; }
    }
    REQ(k == evals.size(), cat("mu was reduced ", evals.size(), " times instead of ", k)); eq("mu", this->_mu, mu, 0); eq("tau", this->_tau, std::max(P.tau_min, 1-mu), 1); evals.clear();
    if(red) filt = {{tmax, -1e20}};
    samefilter();
  }
  void elastic(double mu)
  {
    double r = P.scaled ? 0.995*mu : (mu-P.tol)/(P.mu0-P.tol)*(P.er0-P.er1)+P.er1; r = std::min(std::max(r, P.er1), P.er0); if(!M || !unscaled || this->get_nlp()->options->GetString("elastic_mode") == "correct_it_adjust_bound") return;
    auto* N = this->get_nlp(); V xl = get(&N->get_xl()), xu = get(&N->get_xu()), dl = get(&N->get_dl()), du = get(&N->get_du()); int q = 0; m.n["bounds_tightened"]++;
    for(int i = 0; i < M->n && M->nfixed() == 0; i++) { if(M->xl[i] > -nlp::INF) eq("elastic lower bound", xl[i], M->xl[i]-r*std::max(1., std::fabs(M->xl[i])), 1+std::fabs(M->xl[i])); if(M->xu[i] < nlp::INF) eq("elastic upper bound", xu[i], M->xu[i]+r*std::max(1., std::fabs(M->xu[i])), 1+std::fabs(M->xu[i])); }
    for(int k = 0; k < M->m; k++) if(!M->eq(k)) { if(M->cl[k] > -nlp::INF) eq("elastic lower constraint bound", dl[q], M->cl[k]-r*std::max(1., std::fabs(M->cl[k])), 1+std::fabs(M->cl[k])); if(M->cu[k] < nlp::INF) eq("elastic upper constraint bound", du[q], M->cu[k]+r*std::max(1., std::fabs(M->cu[k])), 1+std::fabs(M->cu[k])); q++; }
  }
  double infeas_curr() { Full t = save(*this->it_curr); return infeas(t, get(this->_c), get(this->_d)); }
  bool begin_search(bool ok)
  {
    if(!ok) return ok;
    where = "search"; prev = save(*this->it_curr); dir0 = save(*this->dir); double ad; ftb(prev, dir0, this->_tau, alpha0, ad); alpha0 = limited(alpha0, dir0.x); adual_tau = this->_tau; adual_mu = this->_mu; last_alpha = 0; trials = soc_trials = 0; accepted = soc_accepted = false; status = -1; searched = true; fr_called = fr_done = false;
    double z; theta0 = infeas_curr(); phi0 = barrier(this->_f_nlp, prev, this->_mu, &z); eq("barrier function", this->logbar->f_logbar, phi0, z); eq("infeasibility", this->resid->get_theta(), theta0, 1+theta0); phi0 = this->logbar->f_logbar; theta0 = this->resid->get_theta();
    D0 = slope(prev, dir0, this->_mu, z); eq("slope of the barrier function", this->logbar->directionalDerivative(*this->dir), D0, z);
    return ok;
  }
  void before() { where = "search"; REQ(expect == NlpSolve_Pending, cat("goes on instead of terminating with status ", expect)); if(first_search) { mus(); first_search = false; } }
  bool compute_search_direction(hiopKKTLinSys* k, bool& s, const bool q, const int i) override { before(); return begin_search(B::compute_search_direction(k, s, q, i)); }
  bool compute_search_direction_inertia_free(hiopKKTLinSys* k, bool& s, const bool q, const int i) override { before(); return begin_search(B::compute_search_direction_inertia_free(k, s, q, i)); }
  // ---- trial points and acceptance
  int accept_line_search_conditions(const double thc, const double tht_, const double alpha, bool& gc, double& gp) override
  {
    where = in_soc ? "second-order correction" : "trial point"; Full t = save(*this->it_trial), d = in_soc ? save(*this->soc_dir) : dir0; double a, mu = this->_mu;
    if(!in_soc) {
      trials++; a = this->_alpha_primal; if(trials == 1) eq("first step", a, alpha0, alpha0); else { eq("next step", a, 0.5*last_alpha, a); REQ(a >= P.min_step, "step below min_step_size tried"); } last_alpha = a; REQ(alpha == a, "acceptance is judged with another step");
    } else {
      soc_trials++; double ad; ftb(prev, d, this->_tau, a, ad); a = limited(a, d.x); REQ(soc_trials <= P.max_soc, "more corrections than max_soc_iter"); if(soc_trials > 1) REQ(soc_last_theta <= P.kappa_soc*soc_prev_theta, "another correction although the infeasibility did not decrease enough");
      // the right-hand side accumulates the constraint residuals
      V c = jac(this->_Jac_c, d.x), e = jac(this->_Jac_d, d.x); for(size_t i = 0; i < e.size(); i++) e[i] -= d.d[i]; { Deltas q = deltas(*this->pd_perturb_); for(size_t i = 0; i < c.size(); i++) c[i] -= q.cc[i]*d.yc[i]; for(size_t i = 0; i < e.size(); i++) e[i] -= q.cd[i]*d.yd[i]; }
      for(size_t i = 0; i < c.size(); i++) csoc[i] = soc_alpha*csoc[i]+pc[i]; for(size_t i = 0; i < e.size(); i++) dsoc[i] = soc_alpha*dsoc[i]+pd[i];
      double big = 1+inf(d.x)*10; if(weak) big = 1e300; for(size_t i = 0; i < c.size(); i++) REQ(std::fabs(c[i]-csoc[i]) <= 1e-5*(big+std::fabs(csoc[i])), cat("corrected direction does not satisfy the corrected equality ", i, ": ", c[i], " instead of ", csoc[i])); for(size_t i = 0; i < e.size(); i++) REQ(std::fabs(e[i]-dsoc[i]) <= 1e-5*(big+std::fabs(dsoc[i])), cat("corrected direction does not satisfy the corrected inequality ", i, ": ", e[i], " instead of ", dsoc[i]));
      soc_alpha = a;
    }
    V x(prev.x), dd(prev.d); for(size_t i = 0; i < x.size(); i++) x[i] += a*d.x[i]; for(size_t i = 0; i < dd.size(); i++) dd[i] += a*d.d[i]; veq("x", t.x, x); veq("d", t.d, dd);
    for(int k = 4; k < 8; k++) for(size_t i = 0; i < parts(t)[k]->size(); i++) if(ex(k, i)) REQ((*parts(t)[k])[i] > 0, cat("slack ", pname(k), i, " is ", (*parts(t)[k])[i]));
    V c = get(this->_c_trial), e = get(this->_d_trial); double th = infeas(t, c, e), z, ph = barrier(this->_f_nlp_trial, t, mu, &z); eq("trial infeasibility", tht_, th, 1+th); eq("trial barrier function", this->logbar->f_logbar_trial, ph, z); eq("current infeasibility", thc, theta0, 0);
    if(M) { V u = t.x; double of = this->get_nlp()->get_obj_scale()*M->f(u.data()); eq("trial objective", this->_f_nlp_trial, of, 1e3+std::fabs(of)); if(unscaled) { int ie = 0, ii = 0; for(int k = 0; k < M->m; k++) { double v = M->c(k, u.data()); if(M->eq(k)) eq("trial equality", c[ie++], v, 1e3+std::fabs(v)); else eq("trial inequality", e[ii++], v, 1e3+std::fabs(v)); } } }
    int st = B::accept_line_search_conditions(thc, tht_, alpha, gc, gp); double pt = this->logbar->f_logbar_trial; m.n[in_soc ? "correction_trials" : "trials"]++; m.n[cat("accept_status_", st)]++;
    double D = D0; bool ok = false; string al;
    for(double q : {-1e-11, 0., 1e-11}) {
      double s = q*(1+std::fabs(phi0)), ts = q*theta0; int r;
      bool suff = tht_ <= (1-1e-5)*theta0+ts || pt <= phi0-1e-8*theta0+s, sw = D < 0 && alpha*std::pow(-D, 2.3) > std::pow(theta0, 1.1)*(1+q), ar = pt <= phi0+P.eta_phi*alpha*D+s;
      if(theta0 >= tmin*(1+q)) r = suff ? 1 : 0; else if(sw) r = ar ? 3 : 0; else r = suff ? 2 : 0;
      if(r && infilter(tht_, pt)) r = 0;
      ok = ok || r == st; al += cat(" ", r);
    }
    REQ(ok, cat("acceptance is ", st, " instead of", al, " (theta ", theta0, "->", tht_, ", phi ", phi0, "->", pt, ", slope ", D, ", alpha ", alpha, ")"));
    if(st > 0) { accepted = true; acc = t; tht = tht_; pht = pt; f_acc = this->_f_nlp_trial; double zz; Dsoc = in_soc ? slope(prev, d, mu, zz) : D0; }
    if(in_soc) { soc_prev_theta = soc_last_theta; soc_last_theta = tht_; setpc(t); }
    status = st; m.h.push_back(hd(hd(hd(hs(0, "tr"), tht_), pt), st)); return st;
  }
  V jac(hiopMatrix* J, const V& x) { std::unique_ptr<hiopVector> a(this->it_curr->get_x()->new_copy()); bool cj = J == this->_Jac_c; std::unique_ptr<hiopVector> r((cj ? this->_c : this->_d)->new_copy()); put(a.get(), x); J->timesVec(0., *r, 1., *a); return get(r.get()); }
  V pc, pd; double soc_last_theta = 0, soc_prev_theta = 0;
  void setpc(Full& t) { V r = get(&this->get_nlp()->get_crhs()), c = get(this->_c_trial), d = get(this->_d_trial); pc.resize(c.size()); pd.resize(d.size()); for(size_t i = 0; i < c.size(); i++) pc[i] = r[i]-c[i]; for(size_t i = 0; i < d.size(); i++) pd[i] = t.d[i]-d[i]; }
  int apply_second_order_correction(hiopKKTLinSys* k, const double thc, const double tht0, bool& gc, double& gp, int& adj) override
  {
    where = "second-order correction"; REQ(trials == 1, "correction after another than the first trial point"); REQ(tht0 >= theta0*(1-1e-11), "correction although the infeasibility decreased"); in_soc = true; soc_trials = 0; V r = get(&this->get_nlp()->get_crhs()), c = get(this->_c), d = get(this->_d); csoc.resize(c.size()); dsoc.resize(d.size());
    for(size_t i = 0; i < c.size(); i++) csoc[i] = r[i]-c[i]; for(size_t i = 0; i < d.size(); i++) dsoc[i] = prev.d[i]-d[i]; soc_alpha = this->_alpha_primal; { Full t = save(*this->it_trial); setpc(t); } soc_prev_theta = soc_last_theta = tht0;
    int st = B::apply_second_order_correction(k, thc, tht0, gc, gp, adj); in_soc = false; where = "second-order correction"; if(this->solver_status_ == Error_In_User_Function) return st;
    REQ(!(st == 0 && soc_trials < P.max_soc && soc_last_theta <= P.kappa_soc*soc_prev_theta*(1-1e-11) && soc_trials > 0), "corrections given up although the infeasibility decreases"); if(soc_trials == 0) REQ(P.max_soc == 0, "no correction tried"); if(soc_trials > 0) m.n["corrections"]++;
    if(st > 0) { soc_accepted = true; m.n["corrections_accepted"]++; double ad, ap; Full s = save(*this->soc_dir), t = prev; ftb(t, s, this->_tau, ap, ad); eq("step of the accepted correction", this->_alpha_primal, limited(ap, s.x), ap); eq("dual step of the accepted correction", this->_alpha_dual, ad, ad); } else status = 0;
    return st;
  }
  // ---- restoration
  bool apply_feasibility_restoration(hiopKKTLinSys* k) override
  {
    where = "restoration"; bool forced = P.resto && this->iter_num_ == 1;
    if(!forced) { REQ(!accepted, "restoration although a trial point was accepted"); REQ(0.5*last_alpha < P.min_step, cat("restoration although the step ", 0.5*last_alpha, " is not below min_step_size")); }
    fr_called = true; fr_done = B::apply_feasibility_restoration(k); m.n["restoration_calls"]++; return fr_done;
  }
  bool solve_soft_feasibility_restoration(hiopKKTLinSys* k) override
  {
    hiopFilter keep = this->filter; auto kf_ = filt; if(poison) { this->filter.add(-1e300, -1e300); filt.push_back({-1e300, -1e300}); }
    double e0 = this->resid->get_nrmOne_bar_optim()+this->resid->get_nrmOne_bar_feasib(); int ev = this->get_nlp()->runStats.nEvalObj; bool r = B::solve_soft_feasibility_restoration(k); where = "soft restoration"; ev = this->get_nlp()->runStats.nEvalObj-ev;
    if(r) { m.n["soft_restorations"]++; Full t = save(*this->it_trial); double th = infeas(t, get(this->_c_trial), get(this->_d_trial)), z, ph = barrier(this->_f_nlp_trial, t, this->_mu, &z); if(ev != 19) REQ(!infilter(th*(1-1e-9), ph-1e-9*z), cat("point (", th, ",", ph, ") accepted although the filter rejects it")); double e1 = this->resid_trial->get_nrmOne_bar_optim()+this->resid_trial->get_nrmOne_bar_feasib(); REQ(e1 <= 0.999*e0, cat("point accepted although the error goes from ", e0, " to ", e1));
      for(int k = 4; k < 12; k++) for(size_t i = 0; i < parts(t)[k]->size(); i++) if(ex(k, i)) REQ((*parts(t)[k])[i] > 0, cat(pname(k), i, " is ", (*parts(t)[k])[i])); }
    this->filter = keep; filt = kf_; return r;
  }
  void finish(int st)
  {
    where = "end"; if(expect != NlpSolve_Pending) REQ(st == expect, cat("status ", st, " instead of ", expect)); else REQ(st == Steplength_Too_Small || st == Error_In_FR || st == Infeasible_Problem || st == Err_Step_Computation || st == Error_In_User_Function, cat("status ", st, " without a reason"));
  }
  // ---- the rules alone: termination over all short sequences of error levels, and the barrier parameter
  void tables(Mon& mm)
  {
    P.read(*this->get_nlp()->options); this->reload_options(); patterns();
    double lv[] = {0, 0.5, 1, 2}; std::vector<Errs> es;
    for(double a : lv) for(int w = 0; w < 6; w++) { Errs e{P.tol*0.5, 0, 0, 0, 0, 0}; double* q[] = {&e.nlp, &e.optim, &e.feas, &e.complem, &e.viol, &e.nlp}; double s[] = {P.tol, P.dual_tol, P.cons_tol, P.comp_tol, P.cons_tol, P.acc_tol}; *q[w] = a*s[w]; if(w == 0 || w == 5 || a == 2) es.push_back(e); }
    for(double a : {0.5, 1., 2.}) { Errs e{1, 5*P.rtol*a, 3*P.rtol*a, std::max(P.rtol, 1e-6)*a, 1, 1}; es.push_back(e); e.optim = 5*P.rtol/2; e.feas = 3*P.rtol/2; es.push_back(e); } es.push_back({1, 5, 3, 7, 1, 1}); es.push_back({1, 5, 3, 0.25, 1, 1});
    int E = es.size(), L = P.acc_it <= 2 ? 4 : 3; std::vector<int> s(L, 0);
    do {
      this->resetSolverStatus(); Term T; bool stop = false; this->solver_status_ = NlpSolve_Pending;
      for(int i = 0; i < L && !stop; i++) {
        const Errs& e = es[i == 0 ? E-1-(s[0] % 2) : s[i]]; this->_err_nlp = e.nlp; this->_err_nlp_optim = e.optim; this->_err_nlp_feas = e.feas; this->_err_nlp_complem = e.complem; this->_err_cons_violation = e.viol; this->_err_log = e.log;
        if(i == 0) { this->_err_nlp_optim0 = e.optim; this->_err_nlp_feas0 = e.feas; this->_err_nlp_complem0 = e.complem; }
        int w = T.go(P, e, i); hiopSolveStatus dummy = NlpSolve_Pending; bool t = this->checkTermination(this->_err_nlp, i, dummy); mm.trans++; stop = t;
        mm.require(t == (w != NlpSolve_Pending) && this->solver_status_ == w, cat("termination after the error levels ", vstr(std::vector<int>(s.begin(), s.begin()+i+1)), ": ", t ? "stops" : "goes on", " with status ", this->solver_status_, " instead of ", w));
      }
      mm.n["termination_sequences"]++;
    } while(advance(s, std::vector<int>(L, E)) && mm.bad.empty());
    // barrier parameter, without elastic mode
    for(double mu = 1e3; mu > 1e-17; mu *= 0.37) { double nm = -1, nt = -1, w = std::max(std::min(P.kappa_mu*mu, std::pow(mu, P.theta_mu)), std::min(P.tol, P.comp_tol/this->get_nlp()->get_obj_scale())/11.); bool r = this->update_log_barrier_params(*this->it_curr, mu, 0.5, false, nm, nt); mm.trans++; bool same = std::fabs(w-mu) < 1e-16; mm.require(r == !same, cat("mu=", mu, r ? " reduced" : " not reduced")); if(r) { mm.require(std::fabs(nm-w) <= 1e-14*w, cat("mu=", mu, " becomes ", nm, " instead of ", w)); mm.require(std::fabs(nt-std::max(P.tau_min, 1-w)) <= 1e-14, cat("tau for mu=", w, " is ", nt)); mm.require(nm > 0 && nt < 1, cat("mu=", nm, " tau=", nt)); } }
  }
};
typedef Spy<hiopAlgFilterIPMQuasiNewton> SpyQ; typedef Spy<hiopAlgFilterIPMNewton> SpyN;

static const double big = nlp::INF;
static void run(const nlp::Model& M0, const string& form, const nlp::Opts& o, int st0, int stop, bool poison)
{
  if(!mc::begin(cat("rules:", M0.name, ":", form, ":", nlp::ostr(o), st0 ? cat(":start", st0) : "", stop >= 0 ? cat(":stop", stop) : "", poison ? ":refuse" : ""))) return;
  nlp::Model M = M0; if(st0 == 1) for(double& x : M.x0) x = -3*x+1; if(st0 == 2) for(size_t i = 0; i < M.x0.size(); i++) M.x0[i] = 25.*(i % 2 ? -1 : 1)+M.x0[i]; if(st0 == 3) for(double& x : M.x0) x = 0;
  Isolated is = isolated([&]() -> string {
    nlp::User u; u.M = &M; u.check_bounds = false; u.stop_at = stop; nlp::Instance I(u, form, o); Mon m; int st = -1; bool none = false; for(auto& p : o) none = none || (p.k == "scaling_type" && p.v == "none");
    auto go = [&](auto* A) { A->M = M.nfixed() ? nullptr : &M; A->unscaled = none; A->stop_at = stop; A->poison = poison; A->weak = !M.feasible;   // dependent constraints and no regularization: directions are least-squares solutions
      I.alg.reset(A); st = A->run(); A->finish(st); };
    if(form == "dense") go(new SpyQ((hiopNlpDenseConstraints*)I.f.get(), m)); else go(new SpyN(I.f.get(), m));
    std::ostringstream r; r << st << " " << m.trans << " " << m.n.size(); for(auto& p : m.n) r << " " << p.first << " " << p.second; r << " " << m.h.size(); for(auto h : m.h) r << " " << h; r << "\n" << m.bad; return r.str();
  });
  trace(); if(is.kind != Isolated::Ok) { fail(is.kind == Isolated::Timeout ? "hang" : "crash", is.describe()); return; }
  std::istringstream in(is.text); int st; long tr, k; in >> st >> tr >> k; trans(tr); count(cat("status_", st)); for(long i = 0; i < k; i++) { string n; long c; in >> n >> c; count(n, c); } long nh; in >> nh; for(long i = 0; i < nh; i++) { uint64_t h; in >> h; state(mix(h, hs(0, M.name))); } string l; std::getline(in, l); string b; std::getline(in, b, '\0'); if(!b.empty()) fail("rule", b);
}
static void tables(const string& form, const nlp::Opts& o)
{
  if(!mc::begin(cat("tables:", form, ":", nlp::ostr(o)))) return;
  static auto F = nlp::family(false); nlp::User u; u.M = &F[30]; nlp::Instance I(u, form, o); I.f->finalizeInitialization(); Mon m;
  if(form == "dense") { SpyQ A((hiopNlpDenseConstraints*)I.f.get(), m); A.tables(m); } else { SpyN A(I.f.get(), m); A.tables(m); }
  trace(m.n["termination_sequences"]); trans(m.trans); state(hs(0, mc::current())); for(auto& p : m.n) count(p.first, p.second); if(!m.bad.empty()) fail("rule", m.bad);
}
void mc_body()
{
  using nlp::Opts;
  std::vector<Opts> os = { {}, {{"scaling_type","none"}}, {{"max_soc_iter","0"}}, {{"max_soc_iter","1"}}, {{"kappa_soc","0.1"}}, {{"kappa_soc","100"},{"max_soc_iter","6"}}, {{"moving_lim_rel","0.3"}}, {{"moving_lim_abs","0.05"},{"max_iter","300"}}, {{"moving_lim_abs","3"},{"scaling_type","none"}},
    {{"rel_tolerance","0.1"}}, {{"rel_tolerance","1e-3"}}, {{"tolerance","1e-3"},{"acceptable_tolerance","1e-2"},{"acceptable_iterations","2"},{"dual_tol","1e-3"}}, {{"acceptable_tolerance","1e-1"},{"acceptable_iterations","1"}}, {{"acceptable_tolerance","1e-3"},{"acceptable_iterations","3"}}, {{"max_iter","3"}}, {{"max_iter","0"}},
    {{"mu0","0.1"}}, {{"mu0","100"},{"scaling_type","none"}}, {{"kappa_mu","0.5"},{"theta_mu","1.2"}}, {{"kappa_mu","0.01"},{"theta_mu","2"}}, {{"kappa_eps","0.1"}}, {{"kappa_eps","1000"}}, {{"tau_min","0.9"}}, {{"smax","1"}}, {{"theta_max_fact","1"},{"theta_min_fact","1"}}, {{"theta_min_fact","1000"},{"theta_max_fact","2000"}}, {{"theta_min_fact","0"}}, {{"theta_max_fact","0.5"},{"theta_min_fact","0.01"}},
    {{"eta_phi","0.01"}}, {{"min_step_size","0.6"}}, {{"min_step_size","0.2"},{"max_soc_iter","0"}}, {{"accept_every_trial_step","yes"}}, {{"elastic_mode","tighten_bound"},{"scaling_type","none"}}, {{"elastic_mode","correct_it"},{"scaling_type","none"}}, {{"elastic_mode","correct_it"},{"elastic_bound_strategy","mu_scaled"},{"scaling_type","none"}}, {{"elastic_mode","correct_it_adjust_bound"}}, {{"elastic_mode","tighten_bound"},{"elastic_bound_strategy","mu_scaled"}},
    {{"force_resto","yes"}}, {{"duals_update_type","linear"}}, {{"comp_tol","1e-9"},{"dual_tol","1e-8"},{"cons_tol","1e-9"}}, {{"scaling_max_obj_grad","5"},{"comp_tol","1e-6"}} };
  std::vector<Opts> mds = os; for(auto& e : std::vector<Opts>{{{"fact_acceptor","inertia_free"}}, {{"linsol_mode","speculative"}}, {{"linsol_mode","forcequick"}}, {{"Hessian","quasinewton_approx"}}}) mds.push_back(e);
#ifdef HIOP_SPARSE
  mds.back() = {{"KKTLinsys","xdycyd"}};
#endif
  auto F = nlp::family(true);
  { nlp::Model M("infeasible", 2); M.diagQ({2, 2}).con(2, {1, 1}, big).con(-big, {1, 1}, 1).start({0, 0}).infeasible(); F.push_back(M); }
  { nlp::Model M("infeasible-nl", 2); M.lin({1, 1}).con(4, {0, 0}, 4, {2, 2}).con(9, {0, 0}, 9, {2, 2}).start({1, 0.5}).nonconvex().infeasible(); F.push_back(M); }
  { nlp::Model M("maratos", 2); M.lin({-1, 0}).diagQ({4, 4}).con(1, {0, 0}, 1, {2, 2}).start({0.8, 0.6}).nonconvex(); F.push_back(M); }
  { nlp::Model M("valley", 2); M.quart({4, 0.5}).diagQ({-8, 1}).off(0, 1, 2).lin({0.5, -1}).con(-big, {1, 0}, 1.5, {2, 2}).bnd(0, -3, 3).start({2, -2}).nonconvex(); F.push_back(M); }
  { nlp::Model M("saddle-eq", 3); M.diagQ({-2, 2, 1}).quart({1, 0, 1}).con(1, {1, 0, 0}, 1, {0, 2, 2}).con(0, {0, 1, -1}, 2).bnd(2, -1, 4).start({0.1, 2, 2}).nonconvex(); F.push_back(M); }
  for(auto& M : F) {
#ifdef HIOP_SPARSE
    std::vector<string> forms = {"sparse"};
#else
    std::vector<string> forms = {"dense"}; for(int k = 0; k <= M.n; k++) if(nlp::MDS::fits(M, k) && (opt.thorough || k == M.n/2 || k == M.n)) forms.push_back(cat("mds", k));
#endif
    for(auto& f : forms) { auto& all = f == "dense" ? os : mds; std::vector<Opts> l = all; if(opt.thorough && (f == "dense" || f == forms[1 % forms.size()])) l = nlp::pairs(all);
      for(size_t i = 0; i < l.size(); i++) for(int s = 0; s < (i < all.size() ? (opt.thorough ? 4 : 2) : 1); s++) run(M, f, l[i], s, -1, false);
      for(int s : {0, 2, 5}) run(M, f, {}, 0, s, false);
      for(auto& o : std::vector<Opts>{{{"min_step_size","0.6"},{"max_soc_iter","0"}}, {{"force_resto","yes"}}}) for(int s = 0; s < 4; s++) run(M, f, o, s, -1, true); }
  }
#ifdef HIOP_SPARSE
  return;
#endif
  for(auto& f : {string("dense"), string("mds1")}) for(auto& a : {"1", "2", "3"}) for(auto& e : std::vector<Opts>{{}, {{"rel_tolerance","0.1"}}, {{"rel_tolerance","1e-7"}}, {{"tolerance","1e-3"},{"acceptable_tolerance","1e-2"},{"dual_tol","0.01"},{"cons_tol","0.02"},{"comp_tol","0.03"}}, {{"max_iter","2"}}, {{"kappa_mu","0.9"},{"theta_mu","1.05"}}, {{"tau_min","0.9"},{"comp_tol","1e-7"}}}) { Opts o = e; o.push_back({"acceptable_iterations", a}); tables(f, o); }
}
