// S06: everything the iterate callback reports, for every iteration of every problem x formulation x option set.
#include "nlp.hpp"
using namespace nlp; using namespace mc;

static string check(const Model& M, const User& u, const Opts& o, const Sol& s)
{
  bool noscale = false, elastic = false, force = false, remove = false; double relax = 1e-8, taumin = 0.99;
  for(auto& p : o) { if(p.k == "scaling_type") noscale = true; if(p.k == "elastic_mode") elastic = true; if(p.k == "force_resto") force = true; if(p.k == "bound_relax_perturb") relax = atof(p.v.c_str()); if(p.k == "tau_min") taumin = atof(p.v.c_str()); if(p.k == "fixed_var") remove = p.v == "remove"; }
  auto clo = [&](int c) { return u.all_ineq && M.eq(c) ? M.cl[c]-1e-8*std::max(1., std::fabs(M.cl[c])) : M.cl[c]; }; auto cup = [&](int c) { return u.all_ineq && M.eq(c) ? M.cu[c]+1e-8*std::max(1., std::fabs(M.cu[c])) : M.cu[c]; };  // equalities posed as inequalities are relaxed by eq_relax_factor
  auto iseq = [&](int c) { return M.eq(c) && !u.all_ineq; }; string v; int mi = u.all_ineq ? M.m : M.m-M.neq(); const Iter* P = nullptr; int soc = 0; (void)soc;
  auto bad = [&](const Iter& I, const string& w) { if(v.size() < 600) v += cat("iteration: ", I.it, ": ", w, "\n"); };
  if(u.iters.empty()) return "iteration: no callback at all\n";
  for(size_t k = 0; k < u.iters.size(); k++) {
    const Iter& I = u.iters[k];
    if(I.it != (int)k) bad(I, cat("reported as iteration ", I.it, " but is callback number ", k));
    if(I.n != M.n || I.m != M.m || I.mi != mi) { bad(I, cat("sizes n=", I.n, " m=", I.m, " m_ineq=", I.mi, " for a problem with ", M.n, ", ", M.m, ", ", mi)); break; }
    bool fin = true; for(auto* q : {&I.x, &I.zl, &I.zu, &I.s, &I.g, &I.lam}) for(double t : *q) fin = fin && std::isfinite(t); for(double t : {I.obj, I.logobj, I.inf_pr, I.inf_du, I.mu, I.alpha_pr, I.alpha_du}) fin = fin && std::isfinite(t);
    if(!fin) { bad(I, "a value is not finite"); break; }
    double f = M.f(I.x.data()), fs = std::fabs(M.f0); for(int i = 0; i < M.n; i++) { fs += std::fabs(M.g[i]*I.x[i])+std::fabs(M.w[i]*std::pow(I.x[i], 4)); for(int j = 0; j < M.n; j++) fs += std::fabs(M.Q[i*M.n+j]*I.x[i]*I.x[j]); }
    if(std::fabs(f-I.obj) > 1e-11*(fs+1e-10)) bad(I, cat("objective ", I.obj, " but f(x)=", f));
    for(int c = 0; c < M.m; c++) { double g = M.c(c, I.x.data()), z = 0; for(int i = 0; i < M.n; i++) { z += std::fabs(M.A[c][i]*I.x[i]); if(!M.B[c].empty()) for(int j = 0; j < M.n; j++) z += std::fabs(M.B[c][i*M.n+j]*I.x[i]*I.x[j]); } if(std::fabs(g-I.g[c]) > 1e-11*(z+1e-10)) { bad(I, cat("constraint ", c, " reported as ", I.g[c], " but is ", g, " at x")); break; } }
    if(I.it == 0 ? (I.alpha_pr != 0 || I.alpha_du != 0) : !(I.alpha_pr > 0 && I.alpha_pr <= 1 && I.alpha_du > 0 && I.alpha_du <= 1)) bad(I, cat("step sizes ", I.alpha_pr, ", ", I.alpha_du));
    if(!(I.mu > 0)) bad(I, cat("barrier parameter ", I.mu)); if(P && I.mu > P->mu) bad(I, cat("barrier parameter grows from ", P->mu, " to ", I.mu));
    if(I.inf_pr < 0 || I.inf_du < 0) bad(I, "negative infeasibility");
    double tau = std::max(taumin, 1-I.mu);
    auto bound = [&](const char* w, int i, double x, double lo, double up, bool fixed, double zl, double zu, bool dual, double px, double pzl, double pzu) {
      if(elastic) return;
      if(fixed) { if(std::fabs(x-lo) > 1e-7*std::max(1., std::fabs(lo))) bad(I, cat(w, i, " = ", x, " although fixed at ", lo)); if(dual && remove && (zl != 0 || zu != 0)) bad(I, cat("multipliers ", zl, ", ", zu, " of a removed variable")); return; }
      double rl = relax*std::max(1., std::fabs(lo)), ru = relax*std::max(1., std::fabs(up));
      if(lo > -INF && !(x > lo-rl*(1+1e-6)-1e-12*std::fabs(lo)-1e-15)) bad(I, cat(w, i, " = ", x, " is not above its lower bound ", lo));
      if(up < INF && !(x < up+ru*(1+1e-6)+1e-12*std::fabs(up)+1e-15)) bad(I, cat(w, i, " = ", x, " is not below its upper bound ", up));
      if(dual && (lo > -INF ? !(zl > 0) : zl != 0)) bad(I, cat("multiplier of the ", lo > -INF ? "" : "missing ", "lower bound ", i, " is ", zl));
      if(dual && (up < INF ? !(zu > 0) : zu != 0)) bad(I, cat("multiplier of the ", up < INF ? "" : "missing ", "upper bound ", i, " is ", zu));
      if(P && !force) {
        double sl = x-(lo-rl), ps = px-(lo-rl), e = 1e-9*(std::fabs(lo)+std::fabs(x)+1)*1e-3; if(lo > -INF && sl < (1-tau)*ps*(1-1e-6)-e) bad(I, cat(w, i, " moves from ", px, " to ", x, ", more than ", tau, " of the way to its lower bound ", lo));
        sl = up+ru-x; ps = up+ru-px; if(up < INF && sl < (1-tau)*ps*(1-1e-6)-e) bad(I, cat(w, i, " moves from ", px, " to ", x, ", more than ", tau, " of the way to its upper bound ", up));
      }
      if(P && dual && noscale && !force) {
        if(lo > -INF) { double sl = x-(lo-rl); if(sl > 1e-10*(1+std::fabs(lo)) && (zl > 1e10*I.mu/sl*(1+1e-4) || zl < 1e-10*I.mu/sl*(1-1e-4))) bad(I, cat("multiplier ", zl, " of lower bound ", i, " is too far from mu/slack=", I.mu/sl)); if(zl < std::min((1-tau)*pzl, 1e10*I.mu/sl)*(1-1e-6)) bad(I, cat("multiplier of lower bound ", i, " goes from ", pzl, " to ", zl)); }
        if(up < INF) { double sl = up+ru-x; if(sl > 1e-10*(1+std::fabs(up)) && (zu > 1e10*I.mu/sl*(1+1e-4) || zu < 1e-10*I.mu/sl*(1-1e-4))) bad(I, cat("multiplier ", zu, " of upper bound ", i, " is too far from mu/slack=", I.mu/sl)); if(zu < std::min((1-tau)*pzu, 1e10*I.mu/sl)*(1-1e-6)) bad(I, cat("multiplier of upper bound ", i, " goes from ", pzu, " to ", zu)); }
      }
    };
    for(int i = 0; i < M.n; i++) bound("x", i, I.x[i], M.xl[i], M.xu[i], M.xl[i] == M.xu[i], I.zl[i], I.zu[i], true, P ? P->x[i] : 0, P ? P->zl[i] : 0, P ? P->zu[i] : 0);
    int q = 0; double fe = 0, f1 = 0; for(int c = 0; c < M.m; c++) { if(iseq(c)) { f1 += std::fabs(I.g[c]-M.cl[c]); fe = std::max(fe, std::fabs(I.g[c]-M.cl[c])); continue; } bound("s", q, I.s[q], clo(c), cup(c), false, 0, 0, false, P ? P->s[q] : 0, 0, 0); f1 += std::fabs(I.g[c]-I.s[q]); fe = std::max(fe, std::fabs(I.g[c]-I.s[q])); q++; }
    if(noscale) {
      if(std::fabs(fe-I.inf_pr) > 1e-9*(1+fe)) bad(I, cat("primal infeasibility reported as ", I.inf_pr, " but is ", fe));
      if(std::fabs(f1-I.one) > 1e-9*(1+f1)) bad(I, cat("one-norm of the primal infeasibility reported as ", I.one, " but is ", f1));
      double du = 0, z = 1; for(int i = 0; i < M.n; i++) { if(remove && M.xl[i] == M.xu[i]) continue; double r = M.df(i, I.x.data())-I.zl[i]+I.zu[i]; for(int c = 0; c < M.m; c++) { r += I.lam[c]*M.dc(c, i, I.x.data()); z = std::max(z, std::fabs(I.lam[c]*M.dc(c, i, I.x.data()))); } du = std::max(du, std::fabs(r)); z = std::max({z, I.zl[i], I.zu[i]}); }
      if(mi == 0 ? std::fabs(du-I.inf_du) > 1e-9*(z+du) : I.inf_du < du-1e-9*(z+du)) bad(I, cat("dual infeasibility reported as ", I.inf_du, " but is ", mi ? "at least " : "", du));
    }
    if(noscale && !elastic) { // the barrier function at (x,s), with the bounds as HiOp relaxes them
      double b = f, sc = 1+fs; auto term = [&](double x, double lo, double up) { double a = x-(lo-relax*std::max(1., std::fabs(lo))), c = up+relax*std::max(1., std::fabs(up))-x; sc += 1e-3*I.mu;
        if(lo > -INF) { b -= I.mu*std::log(a); sc += I.mu*(std::fabs(std::log(a))+1e-3*(1+std::fabs(lo))/std::max(a, 1e-12)); } if(up < INF) { b -= I.mu*std::log(c); sc += I.mu*(std::fabs(std::log(c))+1e-3*(1+std::fabs(up))/std::max(c, 1e-12)); }
        if(lo > -INF && !(up < INF)) b += 1e-5*I.mu*a; if(up < INF && !(lo > -INF)) b += 1e-5*I.mu*c; };
      bool any = false; for(int i = 0; i < M.n; i++) { if(M.xl[i] == M.xu[i]) { any = true; continue; } term(I.x[i], M.xl[i], M.xu[i]); } int z = 0; for(int c = 0; c < M.m; c++) if(!iseq(c)) { term(I.s[z], clo(c), cup(c)); z++; }
      if((remove || !any) && std::fabs(b-I.logobj) > 1e-9*sc) bad(I, cat("barrier function reported as ", I.logobj, " but is ", b));
    }
    P = &I;
  }
  if(success(s.st) && v.empty()) { // the solution is the last iterate
    auto cmp = [&](const char* w, const vector<double>& a, const vector<double>& b) { for(size_t i = 0; i < a.size(); i++) if(!near(a[i], b[i], 1e-12)) { v += cat("last: the last iterate's ", w, " is ", vstr(a), " but the solution's ", vstr(b), "\n"); return; } };
    cmp("x", P->x, s.x); cmp("zl", P->zl, s.zl); cmp("zu", P->zu, s.zu); cmp("lambda", P->lam, s.lam); if(!near(P->obj, s.obj, 1e-12)) v += "last: objectives differ\n"; if((int)u.iters.size() != s.iters+1 && !force) v += cat("last: ", u.iters.size(), " callbacks but ", s.iters, " iterations\n");
  }
  return v;
}
static void one(const Model& M, const string& form, const Opts& o)
{
  bool remove = false, fixedopt = false, norelax = false; for(auto& p : o) { if(p.k == "fixed_var") { fixedopt = true; remove = p.v == "remove"; } if(p.k == "bound_relax_perturb") norelax = true; }
  if(M.nfixed() && remove && form != "dense") return;
  if(M.nfixed() && norelax && !fixedopt) return;
  if(!mc::begin(cat("iterates:", M.name, ":", form, ":", ostr(o)))) return;
  User u; u.M = &M; u.keep_iters = true; u.hash_iters = true; u.check_bounds = false;
  Isolated is = isolated([&]() -> string { Instance I(u, form, o); Sol s = I.run(); std::ostringstream r; r << u.iters.size(); for(uint64_t h : u.ihash) r << " " << h; return r.str()+"\n"+check(M, u, o, s); });
  trace(); if(is.kind != Isolated::Ok) { count("abnormal"); if(getenv("ABN")) fail(cat("abn", (int)is.kind), is.text); return; }     // crashes belong to S01
  std::istringstream in(is.text); string line; std::getline(in, line); std::istringstream h(line); uint64_t k, mh = hs(0, M.name); h >> k; trans(k); while(h >> k) state(mix(k, mh));
  while(std::getline(in, line)) if(!line.empty()) { size_t c = line.find(':'); fail(line.substr(0, c), line.substr(c+2)); }
}
void mc_body()
{
  vector<Opts> os = { {}, {{"scaling_type","none"}}, {{"scaling_max_grad","5"}}, {{"duals_update_type","linear"},{"scaling_type","none"}}, {{"duals_init","zero"},{"scaling_type","none"}}, {{"scaling_max_obj_grad","5"}}, {{"scaling_max_con_grad","2"}},
    {{"fixed_var","remove"}}, {{"fixed_var","remove"},{"scaling_type","none"}}, {{"fixed_var","remove"},{"scaling_max_grad","5"}}, {{"fixed_var","relax"}}, {{"accept_every_trial_step","yes"},{"scaling_type","none"}}, {{"mu0","0.1"},{"scaling_type","none"}}, {{"kappa_mu","0.5"},{"theta_mu","1.2"},{"scaling_type","none"}},
    {{"bound_relax_perturb","0"},{"scaling_type","none"}}, {{"tau_min","0.9"},{"scaling_type","none"}}, {{"elastic_mode","correct_it"}} };
  if(opt.thorough) os = pairs(os);
  for(auto& M : family(true)) {
#ifdef HIOP_SPARSE
    vector<Opts> sp = os; for(auto& e : vector<Opts>{{{"KKTLinsys","xdycyd"},{"scaling_type","none"}}, {{"fact_acceptor","inertia_free"},{"scaling_type","none"}}, {{"force_resto","yes"}}, {{"linsol_mode","forcequick"},{"scaling_type","none"}}}) sp.push_back(e);
    for(auto& o : sp) one(M, "sparse", o);
    for(auto& o : vector<Opts>{{{"KKTLinsys","condensed"}}, {{"KKTLinsys","condensed"},{"scaling_type","none"}}}) one(M, "sparseineq", o);
    continue;
#endif
    for(auto& o : os) one(M, "dense", o);
    vector<Opts> mds = os; mds.push_back({{"Hessian","quasinewton_approx"}}); mds.push_back({{"KKTLinsys","xdycyd"},{"scaling_type","none"}}); mds.push_back({{"fact_acceptor","inertia_free"},{"scaling_type","none"}}); mds.push_back({{"force_resto","yes"}}); mds.push_back({{"linsol_mode","speculative"},{"scaling_type","none"}});
    for(int k = 0; k <= M.n; k++) if(MDS::fits(M, k)) for(auto& o : mds) one(M, cat("mds", k), o);
  }
}
