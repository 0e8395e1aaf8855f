// S05: a solve depends only on the problem and the options: not on what was solved before with the same objects, nor on what memory held.
#include "nlp.hpp"
#include <malloc.h>
using namespace nlp; using namespace mc;

struct Out { int st, it; double obj; vector<double> x, zl, zu, lam; vector<uint64_t> h; };
static Out grab(Instance& I, User& u) { u.ihash.clear(); u.sol_calls = 0; Sol s = I.run(); Out o; o.st = s.st; o.it = s.iters; o.obj = s.obj; o.x = s.x; o.zl = s.zl; o.zu = s.zu; o.lam = s.lam; o.h = u.ihash; return o; }
static string diff(const Out& a, const Out& b, bool bits)
{
  if(a.st != b.st) return cat("status ", a.st, " instead of ", b.st);
  auto d = [&](const char* w, const vector<double>& p, const vector<double>& q) -> string { for(size_t i = 0; i < q.size(); i++) if(bits ? !(p[i] == q[i]) : !(std::fabs(p[i]-q[i]) <= 1e-4*(1+std::fabs(q[i])))) return cat(w, "[", i, "] is ", p[i], " instead of ", q[i]); return ""; };
  string r; if((r = d("x", a.x, b.x)).size() || (r = d("objective", {a.obj}, {b.obj})).size() || (r = d("zl", a.zl, b.zl)).size() || (r = d("zu", a.zu, b.zu)).size() || (r = d("lambda", a.lam, b.lam)).size()) return r;
  if(!bits) return "";
  if(a.it != b.it) return cat(a.it, " iterations instead of ", b.it);
  for(size_t k = 0; k < b.h.size() && k < a.h.size(); k++) if(a.h[k] != b.h[k]) return cat("iteration ", k, " differs");
  return a.h.size() == b.h.size() ? "" : cat(a.h.size(), " reports instead of ", b.h.size());
}
static bool random(const Opts& o) { for(auto& p : o) if(p.v == "randomized") return true; return false; }   // not reproducible itself; what follows it is
static void history(const Model& M, const string& form, const vector<Opts>& os, const vector<int>& seq, int stop)   // stop: 1 = the earlier runs are stopped by the user, 2 = they are never made: only the options change after construction
{
  Isolated is = isolated([&]() -> string {
    std::map<int, Out> fresh; User u; u.M = &M; u.check_bounds = false; u.hash_iters = true; std::unique_ptr<Instance> I; string v;
    auto opts = [&](int k) { Opts o = os[0]; for(auto& p : os[k]) o.push_back(p); return o; };   // os[0]: every option any of them sets, at its default
    for(int k : seq) if(!fresh.count(k)) { User w; w.M = &M; w.check_bounds = false; w.hash_iters = true; Instance F(w, form, opts(k)); fresh[k] = grab(F, w); }
    for(size_t q = 0; q < seq.size(); q++) {
      if(!I) I.reset(new Instance(u, form, opts(seq[q]))); else set(*I->f->options, opts(seq[q]));
      bool last = q+1 == seq.size(); if(stop == 2 && !last) continue; u.stop_at = stop == 1 && !last ? 2 : -1;
      Out o = grab(*I, u); if(u.stop_at >= 0 || random(os[seq[q]])) continue; string d = diff(o, fresh[seq[q]], true); if(!d.empty()) { string s; for(int k : seq) s += k ? " "+ostr(os[k]) : string(" defaults"); return cat("run ", q+1, " of", s, stop == 1 ? " (earlier ones stopped)" : stop == 2 ? " (earlier options never run)" : "", ": ", d); }
    }
    return v; });
  trace(); trans(seq.size()); uint64_t h = hs(hs(stop, M.name), form); for(int k : seq) h = hs(h, ostr(os[k])); state(h);
  if(is.kind != Isolated::Ok) { string s; for(int k : seq) s += k ? " "+ostr(os[k]) : string(" defaults"); fail("rerun-abnormal", cat(s, ": ", is.text)); } else if(!is.text.empty()) fail("rerun", is.text);
}
static void memory(const Model& M, const string& form, const Opts& o)
{
  auto go = [&](int fill) { return isolated([&, fill]() -> string { if(fill) mallopt(M_PERTURB, fill); User u; u.M = &M; u.check_bounds = false; u.hash_iters = true; Instance I(u, form, o); Out r = grab(I, u); std::ostringstream s; s.precision(17); s << r.st << " " << r.it << " " << r.obj; for(auto* q : {&r.x, &r.zl, &r.zu, &r.lam}) for(double v : *q) s << " " << v; for(uint64_t h : r.h) s << " " << h; return s.str(); }); };
  Isolated a = go(0); for(int f : {0x01, 0x55, 0x80, 0xff}) { Isolated b = go(f); trans(); if(a.kind != b.kind || a.text != b.text) { fail("memory", cat(form, " ", ostr(o), " memory filled with ", f, ": '", b.text.substr(0, 150), "' instead of '", a.text.substr(0, 150), "'")); break; } }
  trace(); state(hs(hs(hs(7, M.name), form), ostr(o)));
}
static void declared(const Model& M, const string& form, const Opts& o, bool one)   // saying truthfully what is linear changes nothing, in the first run and the next
{
  Isolated is = isolated([&]() -> string {
    User u; u.M = &M; u.check_bounds = false; u.hash_iters = true; u.one_call = one; Instance I(u, form, o); Out a = grab(I, u);
    User w; w.M = &M; w.check_bounds = false; w.hash_iters = true; w.one_call = one; w.declare = true; Instance J(w, form, o);
    for(int r = 1; r <= 2; r++) { Out b = grab(J, w); string d = diff(b, a, true); if(!d.empty()) return cat("run ", r, " of the problem declared ", M.type() == hiopInterfaceBase::hiopLinear ? "linear" : M.type() == hiopInterfaceBase::hiopQuadratic ? "quadratic" : "nonlinear", ": ", d); }
    return w.bad.empty() ? "" : w.bad[0]; });
  trace(); trans(2); state(hs(hs(hs(9+one, M.name), form), ostr(o))); count("declared");
  if(is.kind != Isolated::Ok) fail("declared-abnormal", cat(form, " ", ostr(o), one ? " one call" : "", ": ", is.describe(), " ", is.err)); else if(!is.text.empty()) fail("declared", cat(form, " ", ostr(o), ": ", is.text));
}
void mc_body()
{
  vector<Opts> base = { {{"scaling_type","gradient"},{"scaling_max_grad","100"},{"fixed_var","none"},{"bound_relax_perturb","1e-8"},{"duals_init","lsq"},{"mu0","1"},{"max_iter","3000"},{"elastic_mode","none"},{"secant_memory_len","6"},{"duals_update_type","lsq"},{"fact_acceptor","inertia_correction"},{"linsol_mode","stable"},{"kappa1","1e-2"},{"tolerance","1e-8"},{"acceptable_tolerance","1e-6"},{"acceptable_iterations","10"},{"rel_tolerance","0"}},
    {{"scaling_type","none"}}, {{"scaling_max_grad","2"}}, {{"bound_relax_perturb","0.01"}}, {{"mu0","0.1"},{"kappa1","0.1"}}, {{"max_iter","3"}}, {{"tolerance","1e-11"},{"acceptable_tolerance","0.1"},{"acceptable_iterations","5"},{"mu0","0.01"}} };
  vector<Opts> more = base; for(Opts o : {Opts{{"elastic_mode","correct_it_adjust_bound"}}, Opts{{"elastic_mode","tighten_bound"}}, Opts{{"duals_update_type","linear"},{"duals_init","zero"}}, Opts{{"rel_tolerance","0.01"}}}) more.push_back(o);
  auto fam = family(true);
  for(auto& M : fam) {
    vector<string> forms = nlp::forms(M.n, &M);
    for(auto& form : forms) {
      if(!opt.thorough && form != "dense" && form != "mds0" && form != forms.back()) continue;
      vector<Opts> os = more; if(form == "dense") { os.push_back({{"secant_memory_len","1"}}); if(M.nfixed()) os.push_back({{"fixed_var","remove"}}); } else if(form == "sparse") { os[0].push_back({"regularization_method","scalar"}); os.push_back({{"regularization_method","randomized"}}); os.push_back({{"fact_acceptor","inertia_free"}}); os.push_back({{"linsol_mode","forcequick"}}); } else { os.push_back({{"fact_acceptor","inertia_free"}}); os.push_back({{"linsol_mode","forcequick"}}); os.push_back({{"Hessian","quasinewton_approx"}}); os[0].push_back({"Hessian","analytical_exact"}); os[0].push_back({"regularization_method","scalar"}); os.push_back({{"regularization_method","randomized"}}); } 
      if(M.name == "fixed2") os.erase(os.begin() + base.size() + 1);   // tighten_bound with fixed variables: a known finding of S01
      if(begin(cat("near:", M.name, ":", form))) {   // from the solution: acceptable from the start on
        Model N = M; try { User u; u.M = &M; u.check_bounds = false; Instance I(u, form, {}); Sol r = I.run(); if(success(r.st)) N.x0 = r.x; } catch(...) {}
        vector<Opts> ac = {os[0]}; for(auto a : {"0.1", "0.0001"}) for(auto m : {"0.01", "1e-05"}) ac.push_back({{"tolerance","1e-11"},{"acceptable_tolerance",a},{"acceptable_iterations","5"},{"mu0",m}});
        for(size_t a = 0; a < ac.size(); a++) for(size_t b = 0; b < ac.size(); b++) for(int st = 0; st < 2; st++) history(N, form, ac, {(int)a, (int)b}, st); }
      if(!begin(cat("rerun:", M.name, ":", form))) continue;
      int K = os.size(); for(int a = 0; a < K; a++) { if(!random(os[a])) { memory(M, form, os[a]); declared(M, form, os[a], false); declared(M, form, os[a], true); } for(int b = 0; b < K; b++) { history(M, form, os, {a, b}, 0); if(a != b) history(M, form, os, {a, b}, 2); if(opt.thorough || a == b) history(M, form, os, {a, b}, 1); if(opt.thorough) for(int c = 0; c < K; c += 2) history(M, form, os, {a, b, c}, 0); } }
    } }
}
