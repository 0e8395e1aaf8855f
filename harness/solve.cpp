// S01: every problem of the families x formulations x option combinations, solved by the real solver; KKT oracle on success.
#include "nlp.hpp"
using namespace nlp; using namespace mc;

static void one(const Model& M, const string& form, const Opts& o, bool one_call, bool combo = false)
{
  string id = cat("solve:", M.name, ":", form, one_call ? ":1call" : "", ":", ostr(o));
  bool remove = false, fixedopt = false, norelax = false, elastic = false, force = false;
  for(auto& p : o) { if(p.k == "fixed_var") { fixedopt = true; remove = p.v == "remove"; } if(p.k == "bound_relax_perturb") norelax = true; if(p.k == "elastic_mode") elastic = true; if(p.k == "force_resto") force = true; }
  if(form == "sparseineq") { bool curved = false, eq = false; for(int k = 0; k < M.m; k++) { curved = curved || !M.B[k].empty(); eq = eq || M.eq(k); } if(elastic || (curved && eq)) combo = true; }   // equalities become thin inequalities; there convergence is not claimed
  // documented limits: removal of fixed variables only with dense two-call formulations; fixed variables need relaxation or removal
  if(M.nfixed() && remove && form != "dense") return;
  if(M.nfixed() && norelax && !fixedopt) return;
  if(!mc::begin(id)) return;
  User u; u.M = &M; u.one_call = one_call; u.hash_iters = true; u.check_bounds = !elastic;   // elastic_mode relaxes the bounds on purpose
  Isolated is = isolated([&]() -> string {
    Instance I(u, form, o);
    Sol s = I.run();
    string v; for(auto& b : u.bad) v += "contract: " + b + "\n";
    std::ostringstream r; r << std::setprecision(17) << s.st << " " << s.iters << " " << s.st2 << " ";
    if(s.st != s.st2) v += cat("status: run() returned ", s.st, " but getSolveStatus() says ", s.st2, "\n");
    double worst = 0;
    if(success(s.st)) {
      string k = kkt(M, s.x, s.zl, s.zu, s.lam, 2e-6, &worst, !(remove && M.nfixed()), elastic ? 1e-2 : 0); if(!k.empty()) v += "kkt: " + k + "\n";
      double f = M.f(s.x.data()); if(!near(f, s.obj, 1e-9)) v += cat("objective: getObjective() is ", s.obj, " but f(x)=", f, "\n");
      if(u.sol_calls != 1) v += cat("callback: solution_callback called ", u.sol_calls, " times\n");
      else {
        if(u.sol_n != M.n || u.sol_m != M.m) v += cat("callback: solution_callback sizes ", u.sol_n, ",", u.sol_m, "\n");
        else {
          auto cmp = [&](const char* w, const vector<double>& a, const vector<double>& b) { for(size_t i = 0; i < a.size(); i++) if(!near(a[i], b[i], 1e-9)) { v += cat("callback: solution_callback's ", w, " is ", vstr(a), " but the getter's ", vstr(b), "\n"); return; } };
          cmp("x", u.sol_x, s.x); cmp("zl", u.sol_zl, s.zl); cmp("zu", u.sol_zu, s.zu); cmp("lambda", u.sol_lam, s.lam);
          vector<double> c(M.m); for(int k = 0; k < M.m; k++) c[k] = M.c(k, s.x.data());
          cmp("constraints", u.sol_g, c);
          if(!near(u.sol_obj, f, 1e-9)) v += cat("callback: objective ", u.sol_obj, " but f(x)=", f, "\n");
          if(u.sol_status != s.st) v += cat("callback: status ", u.sol_status, " but run() returned ", s.st, "\n");
        }
      }
    }
    r << worst; for(uint64_t h : u.ihash) r << " " << h; r << "\n";
    return r.str() + v;
  });
  trace();
  if(is.kind != Isolated::Ok) { fail(is.kind == Isolated::Timeout ? "hang" : "crash", is.describe()); return; }
  int st = 0, it = 0, st2; double w = 0; std::istringstream in(is.text); in >> st >> it >> st2 >> w; string line; std::getline(in, line);
  { std::istringstream hsin(line); uint64_t h, mh = hs(0, M.name); while(hsin >> h) state(mix(h, mh)); } trans(it); count(cat("status_", st));
  while(std::getline(in, line)) if(!line.empty()) { size_t c = line.find(':'); fail(line.substr(0, c), line.substr(c+2)); }
  // two unusual options together need not converge; elastic modes change the bounds on the way
  if(st == Infeasible_Problem && M.convex && M.feasible && !(combo && (elastic || form == "sparseineq"))) fail("false-infeasible", cat("reported as infeasible after ", it, " iterations, but it is convex and feasible"));
  else if(!force && !combo && !success(st) && M.convex && M.feasible) fail("not-solved", cat("status ", st, " after ", it, " iterations on a convex feasible problem"));
}
void mc_body()
{
  vector<Opts> dense = {
    {}, {{"duals_update_type","linear"}}, {{"duals_init","zero"}}, {{"duals_init","zero"},{"duals_update_type","linear"}},
    {{"secant_memory_len","1"}}, {{"sigma_update_strategy","sty_inv"}}, {{"sigma_update_strategy","snrm_ynrm"}}, {{"sigma_update_strategy","sty_srnm_ynrm"}}, {{"sigma_update_strategy","sigma0"}},
    {{"scaling_type","none"}}, {{"scaling_max_grad","10"}}, {{"scaling_max_obj_grad","5"}}, {{"scaling_max_con_grad","2"}}, {{"scaling_min_grad","0.01"}},
    {{"fixed_var","relax"}}, {{"fixed_var","remove"}}, {{"accept_every_trial_step","yes"}}, {{"elastic_mode","tighten_bound"}}, {{"elastic_mode","correct_it"}}, {{"elastic_mode","correct_it_adjust_bound"}},
    {{"mu0","0.1"}}, {{"kappa_mu","0.5"},{"theta_mu","1.2"}}, {{"bound_relax_perturb","0"}}, {{"fixed_var","relax"},{"bound_relax_perturb","0"}}, {{"fixed_var","remove"},{"bound_relax_perturb","0"}}, {{"fixed_var","remove"},{"scaling_max_grad","5"}}, {{"kappa1","1e-4"},{"kappa2","1e-4"}},
  };
  dense.push_back({{"bound_relax_perturb","0"},{"elastic_mode","correct_it"}});
  // quick: pairs of option sets with two-call constraints, dense and one split; thorough: everywhere
  auto run = [&](const Model& M, const string& form, const vector<Opts>& os, bool some) {
    vector<Opts> all = pairs(os);
    for(size_t i = 0; i < all.size(); i++) for(int oc = 0; oc < 2; oc++) { bool combo = i >= os.size(); if(!combo || opt.thorough || (some && oc == 0)) one(M, form, all[i], oc, combo); }
  };
#ifdef HIOP_SPARSE
  vector<Opts> base = {{}, {{"KKTLinsys","xdycyd"}}, {{"KKTLinsys","normaleqn"}}}, cond = {{{"KKTLinsys","condensed"}}, {}};
  vector<Opts> sp; for(auto& o : dense) { bool q = false; for(auto& p : o) q = q || p.k == "secant_memory_len" || p.k == "sigma_update_strategy" || p.v == "remove"; if(!q) sp.push_back(o); }
  sp.push_back({{"fact_acceptor","inertia_free"}}); sp.push_back({{"linsol_mode","speculative"}}); sp.push_back({{"linsol_mode","forcequick"}}); sp.push_back({{"force_resto","yes"}}); sp.push_back({{"reg_method","dual_first"}}); sp.push_back({{"ir_inner_maxit","0"}}); sp.push_back({{"time_kkt","on"}});
  auto with = [](Opts a, const Opts& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
  for(auto& M : family(true)) {
    vector<Opts> os; for(auto& b : base) if(b.empty() || b[0].v != "normaleqn" || (M.sepqp() && M.convex)) for(auto& o : sp) os.push_back(with(o, b)); run(M, "sparse", os, false);
    os.clear(); for(auto& b : cond) for(auto& o : sp) os.push_back(with(o, b)); run(M, "sparseineq", os, false);
  }
  return;
#endif
  for(auto& M : family(true)) {
    run(M, "dense", dense, true);
    vector<Opts> mds = dense;
    mds.push_back({{"Hessian","quasinewton_approx"}}); mds.push_back({{"KKTLinsys","xdycyd"}}); mds.push_back({{"KKTLinsys","xycyd"}}); mds.push_back({{"linsol_mode","speculative"}}); mds.push_back({{"linsol_mode","forcequick"}});
    mds.push_back({{"fact_acceptor","inertia_free"}}); mds.push_back({{"force_resto","yes"}});
    bool first = true; for(int k = M.n/2; k <= M.n+M.n/2; k++) { int q = k%(M.n+1); if(MDS::fits(M, q)) { run(M, cat("mds", q), mds, first); first = false; } }
  }
}
