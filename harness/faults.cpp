// S02: every user callback failing at every call index, a user stop at every iteration, every iteration limit, infeasible problems.
#include "nlp.hpp"
using namespace nlp; using namespace mc;

struct Out { Isolated is; int st = -9999, st2 = 0, it = 0, sol_calls = 0, sol_st = 0; vector<long> calls; string bad, kktmsg; };
static Out run(const Model& M, const string& form, const Opts& o, const std::function<void(User&)>& setup)
{
  Out r;
  r.is = isolated([&]() -> string {
    User u; u.M = &M; u.check_bounds = false; setup(u);
    Instance I(u, form, o); Sol s = I.run();
    std::ostringstream t; t << s.st << " " << s.st2 << " " << s.iters << " " << u.sol_calls << " " << u.sol_status;
    for(long c : u.calls) t << " " << c;
    bool rem = false; for(auto& p : o) if(p.v == "remove") rem = true;
    t << "\n" << (success(s.st) ? kkt(M, s.x, s.zl, s.zu, s.lam, 2e-6, nullptr, !rem) : "") << "\n";
    return t.str();
  });
  if(r.is.kind == Isolated::Ok) { std::istringstream in(r.is.text); in >> r.st >> r.st2 >> r.it >> r.sol_calls >> r.sol_st; for(int i = 0; i < NFN; i++) { long c; in >> c; r.calls.push_back(c); } string l; std::getline(in, l); std::getline(in, r.kktmsg); }
  trace(); trans(std::max(1, r.it));
  return r;
}
// common to all; false if nothing more can be said
static bool sane(const Out& r)
{
  if(r.is.kind != Isolated::Ok) { fail(r.is.kind == Isolated::Timeout ? "hang" : "crash", r.is.describe()); return false; }
  if(r.st != r.st2) fail("status", cat("run() returned ", r.st, " but getSolveStatus() says ", r.st2));
  if(success(r.st) && !r.kktmsg.empty()) fail("unearned-success", r.kktmsg);
  if(r.st == NlpSolve_Pending || r.st == NlpSolve_SolveNotCalled) fail("status", cat("the solve returned status ", r.st, ", which means that it has not ended"));
  return true;
}
static void one(const Model& M, const string& form, const Opts& o, bool oc)
{
  string base = cat(M.name, ":", form, oc ? ":1call" : "", ":", ostr(o));
  bool forced = false; for(auto& p : o) if(p.k == "force_resto") forced = true;
  Out b = run(M, form, o, [&](User& u) { u.one_call = oc; });
  if(b.is.kind != Isolated::Ok) { if(mc::begin("base:" + base)) sane(b); return; }
  for(int fn = 0; fn < NFN; fn++) { if(fn == F_iter || fn < F_start) continue;   // the problem description is read before there is a solve
    for(long k = 0; k < b.calls[fn]; k++) for(int sticky = 0; sticky < 2; sticky++) {
      if(!mc::begin(cat("fault:", fname(fn), "#", k, sticky ? "+" : "", ":", base))) continue;
      Out r = run(M, form, o, [&](User& u) { u.one_call = oc; u.fail_fn = fn; u.fail_at = k; u.sticky = sticky; });
      if(!sane(r)) continue;
      state(hs(mix(mix(fn, k), r.st), base)); count(cat("fault_status_", r.st));
      if(fn == F_start) { if(M.convex && M.feasible && !forced && !success(r.st)) fail("start", cat("no starting point given: status ", r.st)); continue; }
      // a failure of an evaluation is never a user stop, an infeasible problem or a limit; only a restoration or a retry may absorb it
      if(r.st != Error_In_User_Function && !(forced && (r.st == Error_In_FR || success(r.st) || r.st == b.st))) fail("untruthful", cat(fname(fn), " failed at call ", k, sticky ? " (and from then on)" : "", " but the status is ", r.st, " (", b.st, " without the fault)"));
    } }
  for(int it = 0; it <= b.it; it++) {
    if(mc::begin(cat("stop:", it, ":", base))) {
      Out r = run(M, form, o, [&](User& u) { u.one_call = oc; u.stop_at = it; });
      if(sane(r)) { state(hs(mix(7, it), base)); if(r.st != User_Stopped) fail("stop", cat("stop requested at iteration ", it, " but the status is ", r.st)); if(r.it != it) fail("stop", cat("stop requested at iteration ", it, " but the solver did ", r.it)); if(r.sol_calls != 1 || r.sol_st != r.st) fail("stop", cat("solution_callback called ", r.sol_calls, " times, with status ", r.sol_st)); }
    }
    if(it < b.it && it > 0 && mc::begin(cat("maxit:", it, ":", base))) {
      Opts p = o; p.push_back({"max_iter", str(it)});
      Out r = run(M, form, p, [&](User& u) { u.one_call = oc; });
      if(sane(r)) { state(hs(mix(8, it), base)); if(r.st != Max_Iter_Exceeded) fail("maxit", cat("max_iter=", it, " of ", b.it, " needed, but the status is ", r.st)); if(r.it != it) fail("maxit", cat("max_iter=", it, " but the solver did ", r.it)); if(r.sol_calls != 1 || r.sol_st != r.st) fail("maxit", cat("solution_callback called ", r.sol_calls, " times, with status ", r.sol_st)); }
    }
  }
}
static vector<Model> infeasible_family()
{
  vector<Model> F;
  { Model M("inf-lin", 2); M.diagQ({1, 1}).con(3, {1, 1}, INF).bnd(0, 0, 1).bnd(1, 0, 1).start({0.5, 0.5}).infeasible(); F.push_back(M); }
  { Model M("inf-eq", 2); M.diagQ({1, 1}).con(1, {1, 1}, 1).con(3, {1, 1}, 3).start({0.5, 0.5}).infeasible(); F.push_back(M); }
  { Model M("inf-pair", 2); M.lin({1, -1}).bnd(0, -5, 5).bnd(1, -5, 5).con(2, {1, -1}, INF).con(-INF, {1, -1}, -2).start({0, 0}).infeasible(); F.push_back(M); }
  { Model M("inf-circle", 2); M.lin({1, 1}).con(-INF, {0, 0}, 1, {2, 2}).con(3, {1, 1}, INF).start({0.5, 0.5}).infeasible(); F.push_back(M); }
  { Model M("inf-square", 2); M.diagQ({1, 1}).con(-1, {0, 0}, -1, {2, 0}).bnd(1, -1, 1).start({0.5, 0.5}).infeasible(); F.push_back(M); }
  { Model M("inf-mixed", 3); M.diagQ({1, 1, 1}).con(1, {1, 0, 1}, 1).con(-INF, {0, 1, 0}, -4).bnd(0, 0, 3).bnd(1, -3, 3).bnd(2, 0, 3).start({1, 0, 1}).infeasible(); F.push_back(M); }
  return F;
}
void mc_body()
{
  static const char* names[] = {"bnd34", "lin3", "mix1", "mix4", "coupled", "disc-box", "circle-eq", "hyperbola", "quartic", "mixnl2", "degenerate", "fixed1", "steep"};
  vector<Opts> os = {{}, {{"scaling_type","none"}}, {{"duals_init","zero"}}};
  vector<Opts> extra = {{{"force_resto","yes"}}, {{"linsol_mode","speculative"}}, {{"fact_acceptor","inertia_free"}}, {{"Hessian","quasinewton_approx"}}, {{"KKTLinsys","xdycyd"}}};
#ifdef HIOP_SPARSE
  extra.erase(extra.begin()+3);
#endif
  for(auto& M : family(true)) {
    bool in = false; for(auto* q : names) if(M.name == q) in = true; if(!in && !opt.thorough) continue;
#ifdef HIOP_SPARSE
    for(auto& o : os) for(int oc = 0; oc < 2; oc++) one(M, "sparse", o, oc);
    for(auto& o : extra) one(M, "sparse", o, false); continue;
#endif
    for(auto& o : os) for(int oc = 0; oc < 2; oc++) one(M, "dense", o, oc);
    if(M.nfixed()) one(M, "dense", {{"fixed_var","remove"}}, false);
    one(M, "dense", {{"force_resto","yes"}}, false);
    for(int k = 0; k <= M.n; k++) if(MDS::fits(M, k) && (opt.thorough || k == 0 || k == 1)) {
      for(auto& o : os) for(int oc = 0; oc < 2; oc++) one(M, cat("mds", k), o, oc);
      for(auto& o : extra) one(M, cat("mds", k), o, false);
    }
  }
  for(auto& M : infeasible_family()) {
    vector<string> forms = nlp::forms(M.n, &M);
    for(auto& f : forms) for(auto& o : os) for(int oc = 0; oc < 2; oc++) {
      if(!mc::begin(cat("infeasible:", M.name, ":", f, oc ? ":1call" : "", ":", ostr(o)))) continue;
      Out r = run(M, f, o, [&](User& u) { u.one_call = oc; });
      if(!sane(r)) continue;
      state(hs(mix(9, r.st), current())); count(cat("infeasible_status_", r.st));
      if(success(r.st)) fail("unearned-success", cat("status ", r.st, " on an infeasible problem"));
    }
  }
}
