// D03: a solve with the variables distributed over MPI ranks gives, on every rank and for every distribution, the serial result.
#include "nlp.hpp"
#include "simmpi/simmpi.hpp"
using namespace nlp; using namespace mc;

struct Out { int st = 0, it = 0; double obj = 0; vector<double> x, zl, zu, lam; };
static Out solve(const Model& M, const Opts& o, bool one, const vector<index_type>& part, int lo, int hi, int stop, string& bad)
{
  User u; u.M = &M; u.part = part; u.one_call = one; u.check_bounds = false; u.stop_at = stop; Instance I(u, "dense", o); I.make(); Out r; r.st = I.alg->run(); r.it = I.alg->getNumIterations(); r.obj = I.alg->getObjective();
  int n = hi-lo; r.x.assign(n+1, -777.25); r.zl = r.zu = r.x; r.lam.assign(M.m+1, -777.25); I.alg->getSolution(r.x.data()); I.alg->getDualSolutions(r.zl.data(), r.zu.data(), r.lam.data());
  for(auto* v : {&r.x, &r.zl, &r.zu, &r.lam}) { if(v->back() != -777.25) bad = "the solution is longer than the local part"; v->pop_back(); }
  for(auto& b : u.bad) bad = "contract: " + b; if(I.alg->getSolveStatus() != r.st) bad = "getSolveStatus differs from run()"; return r;
}
static void one(const Model& M, const Opts& o, bool onecall, int stop, const vector<index_type>& part)
{
  int P = (int)part.size()-1;
  Isolated is = isolated([&]() -> string {
    string bad; Out s; { sim::Config c; sim::Outcome w = sim::run(c, [&](int) { s = solve(M, o, onecall, {}, 0, M.n, stop, bad); }, [](const std::vector<int>& e, bool) { return e[0]; }); if(!w.ok || !bad.empty()) return cat("serial: ", w.error, bad); }
    vector<Out> r(P); sim::Config c; c.nranks = P; c.max_steps = 100000000L; c.sync_collectives = true;
    sim::Outcome w = sim::run(c, [&](int k) { r[k] = solve(M, o, onecall, part, part[k], part[k+1], stop, bad); }, [](const std::vector<int>& e, bool) { return e[0]; });
    if(!w.ok) return w.error; if(!bad.empty()) return bad;
    for(int k = 1; k < P; k++) { if(r[k].st != r[0].st || r[k].it != r[0].it || r[k].obj != r[0].obj) return cat("rank ", k, " ends with status ", r[k].st, " after ", r[k].it, " iterations with objective ", r[k].obj, ", rank 0 with ", r[0].st, ", ", r[0].it, ", ", r[0].obj); if(r[k].lam != r[0].lam) return cat("rank ", k, " has multipliers ", vstr(r[k].lam), ", rank 0 ", vstr(r[0].lam)); }
    // a forced restoration from a feasible point succeeds or not according to rounding errors; the path to a vertex of a linear program
    // is made of secant pairs that are rounding errors
    for(auto& p : o) if(p.k == "force_resto" && (!success(s.st) || !success(r[0].st))) return "";
    if(M.name == "vertex" && stop > 0 && r[0].st == s.st) return "";
    if(r[0].st != s.st) return cat("status ", r[0].st, " instead of ", s.st);
    double tol = 2e-6; string e; auto cmp = [&](const char* nm, const vector<double>& a, const vector<double>& b) { double sc = 1; for(double v : b) sc = std::max(sc, std::fabs(v)); for(size_t i = 0; i < b.size(); i++) if(!(std::fabs(a[i]-b[i]) <= tol*sc) && e.empty()) e = cat(nm, "[", i, "] is ", a[i], " instead of ", b[i]); };
    vector<double> x, zl, zu; for(int k = 0; k < P; k++) { x.insert(x.end(), r[k].x.begin(), r[k].x.end()); zl.insert(zl.end(), r[k].zl.begin(), r[k].zl.end()); zu.insert(zu.end(), r[k].zu.begin(), r[k].zu.end()); }
    cmp("x", x, s.x); cmp("objective", {r[0].obj}, {s.obj}); tol = 2e-5; cmp("zl", zl, s.zl); cmp("zu", zu, s.zu); cmp("lambda", r[0].lam, s.lam); return e; }, 60);
  trace(); trans(); if(is.kind != Isolated::Ok) fail("dist-abnormal", is.describe()); else if(!is.text.empty()) fail("dist", is.text);
}
void mc_body()
{
  vector<Opts> os = {{}, {{"scaling_type","none"}}, {{"duals_update_type","linear"},{"duals_init","zero"}}, {{"sigma_update_strategy","sty"},{"secant_memory_len","2"}}, {{"elastic_mode","correct_it_adjust_bound"}}, {{"mu0","0.1"}}, {{"force_resto","yes"}}, {{"fixed_var","remove"}}};
  for(auto& M : family(true)) for(auto& o : os) {
    bool rem = o.size() && o[0].k == "fixed_var"; if(rem && !M.nfixed()) continue;
    for(int P = 2; P <= (opt.thorough ? 4 : 3); P++) { vector<int> cut(P-1, 0), radix(P-1, M.n+1); do {
      bool up = true; for(int i = 1; i < P-1; i++) up = up && cut[i-1] <= cut[i]; if(!up) continue; vector<index_type> part(P+1, 0); part[P] = M.n; for(int i = 0; i < P-1; i++) part[i+1] = cut[i];
      for(int oc = 0; oc <= (rem ? 0 : 1); oc++) for(int stop : {-1, 0, 3}) { if(!opt.thorough && (oc || stop >= 0) && !o.empty()) continue;
        if(!begin(cat("dist:", M.name, ":", vstr(part), ":", ostr(o), oc ? ":1call" : "", stop >= 0 ? cat(":stop", stop) : string()))) continue; one(M, o, oc, stop, part); state(hs(3, current())); }
    } while(advance(cut, radix)); } }
}
