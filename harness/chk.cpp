// R02: a solve continued from a checkpoint goes on as the one that was checkpointed; whatever cannot be loaded changes nothing.
#include "nlp.hpp"
#include "simmpi/simmpi.hpp"
#ifdef HIOP_USE_AXOM
#include <axom/sidre/core/DataStore.hpp>
#include <axom/sidre/spio/IOManager.hpp>
using namespace axom;
#endif
#include <sys/stat.h>
#include <unistd.h>
using namespace nlp; using namespace mc;
static const char* GROUP = "HiOp quasi-Newton alg state";
static string dir() { return opt.scratch; }

struct Run { Sol s; vector<Iter> it; string bad; vector<uint64_t> bounds; };   // bounds: of the internal formulation, when each iteration is reported
typedef hiopAlgFilterIPMQuasiNewton QN;
static bool near(const vector<double>& p, const vector<double>& q) { for(size_t i = 0; i < q.size(); i++) if(!(std::fabs(p[i]-q[i]) <= 1e-10*(1+std::fabs(q[i])))) return false; return p.size() == q.size(); }
static string same(const Iter& a, const Iter& b, bool first)
{
  auto d = [&](const char* w, const vector<double>& p, const vector<double>& q) -> string { if(p.size() != q.size()) return cat(w, " has size ", p.size()); for(size_t i = 0; i < q.size(); i++) if(!(p[i] == q[i])) return cat(w, "[", i, "] is ", p[i], " instead of ", q[i]); return ""; };
  string r; if((r = d("x", a.x, b.x)).size() || (r = d("slack", a.s, b.s)).size() || (r = d("zl", a.zl, b.zl)).size() || (r = d("zu", a.zu, b.zu)).size() || (r = d("lambda", a.lam, b.lam)).size() || (r = d("objective", {a.obj}, {b.obj})).size() || (r = d("constraints", a.g, b.g)).size() || (r = d("mu", {a.mu}, {b.mu})).size() || (r = d("primal infeasibility", {a.inf_pr}, {b.inf_pr})).size() || (r = d("dual infeasibility", {a.inf_du}, {b.inf_du})).size() || (r = d("barrier function", {a.logobj}, {b.logobj})).size()) return r;
  if(!first && (r = d("step", {a.alpha_pr, a.alpha_du}, {b.alpha_pr, b.alpha_du})).size()) return r;
  return "";
}
static string identical(const Run& a, const Run& b)   // complete runs
{
  if(a.s.st != b.s.st || a.s.iters != b.s.iters || a.it.size() != b.it.size()) return cat("status ", a.s.st, " after ", a.s.iters, " iterations (", a.it.size(), " reports) instead of ", b.s.st, " after ", b.s.iters, " (", b.it.size(), ")");
  for(size_t k = 0; k < b.it.size(); k++) { string r = same(a.it[k], b.it[k], false); if(!r.empty()) return cat("iteration ", k, ": ", r); }
  if(a.s.x != b.s.x || a.s.zl != b.s.zl || a.s.zu != b.s.zu || a.s.lam != b.s.lam || a.s.obj != b.s.obj) return "the solutions differ"; return "";
}
static uint64_t bounds(hiopNlpFormulation& f) { uint64_t h = 1; for(auto* v : {&f.get_xl(), &f.get_xu(), &f.get_dl(), &f.get_du()}) for(int i = 0; i < v->get_local_size(); i++) h = hd(h, v->local_data_const()[i]); return h; }
static Run go(Instance& I, User& u) { u.iters.clear(); Run r; r.s = I.run(); r.it = u.iters; return r; }
static void prep(User& u, const Model& M) { u.M = &M; u.check_bounds = false; u.keep_iters = true; }

#ifdef HIOP_USE_AXOM
// what the filter, which starts anew, can change: nothing (0), the length of the step (1), also a second-order correction (2)
static int plain(const Opts& o) { int r = 2; for(auto& p : o) { if(p.k == "accept_every_trial_step") return 0; if(p.k == "max_soc_iter") r = 1; } return r; }
static bool moved(const Run& R, size_t k) { return R.bounds[k] != R.bounds[0]; }
// r continues R from iteration k; sets how many iterations were compared
static string continues(const Run& r, const Run& R, size_t k, int filter, bool mvd, long& compared)
{
  if(r.it.empty()) return "no iteration";
  for(size_t j = 0; j < r.it.size() && k+j < R.it.size(); j++) {
    const Iter &a = r.it[j], &b = R.it[k+j]; if(a.it != (int)j) return cat("report ", j, " is numbered ", a.it);
    if(j && filter && a.alpha_pr != b.alpha_pr) { double q = a.alpha_pr/b.alpha_pr; int e; return std::frexp(q, &e) == 0.5 ? "" : cat("iteration ", j, " takes a step of ", a.alpha_pr, " instead of ", b.alpha_pr); }   // the filter starts anew
    string s = same(a, b, j == 0); if(!s.empty() && j && filter == 2 && near(a.x, b.x) && near(a.s, b.s) && near(a.lam, b.lam)) { count("corrected"); return ""; } if(!s.empty()) return cat(j && mvd ? "moved " : "", "iteration ", j, " (", k+j, " of the checkpointed run): ", s); compared++;
  }
  if(r.it.size() != R.it.size()-k) { bool acc = (filter && !success(R.s.st)) || r.s.st == Solve_Acceptable_Level || R.s.st == Solve_Acceptable_Level || r.s.st == Max_Iter_Exceeded || R.s.st == Max_Iter_Exceeded; return acc ? "" : cat("ends after ", r.it.size()-1, " iterations instead of ", R.it.size()-k-1, ", status ", r.s.st, " instead of ", R.s.st); }
  return r.s.st == R.s.st && r.s.x == R.s.x && r.s.lam == R.s.lam && r.s.zl == R.s.zl && r.s.zu == R.s.zu && r.s.obj == R.s.obj ? "" : cat("status ", r.s.st, " or solution differ from the checkpointed run's");
}
static string groups(const sidre::Group& a, const sidre::Group& b)
{
  for(auto& p : b.v) { auto* v = a.getView(p.first); if(!v || v->getNumElements() != p.second->getNumElements()) return cat("view ", p.first); for(int64_t i = 0; i < v->getNumElements(); i++) if(memcmp(v->data()+i, p.second->data()+i, 8)) return cat("view ", p.first, "[", i, "] is ", v->data()[i], " instead of ", p.second->data()[i]); }
  return a.v.size() == b.v.size() ? "" : "number of views";
}
static void cleanup(const string& base) { string cmd = dir(); (void)cmd; for(int i = 0; i < 4; i++) { ::unlink((base+".root."+std::to_string(i)).c_str()); } ::unlink((base+".root").c_str()); }
struct Saved { std::vector<std::unique_ptr<sidre::DataStore>> ds; };
static sidre::Group* newgroup(sidre::DataStore& d) { return d.getRoot()->createGroup(GROUP); }

// the run that is checkpointed at every iteration
static Run reference(const Model& M, const Opts& o, Saved& S)
{
  User u; prep(u, M); Instance I(u, "dense", o); I.make(); vector<uint64_t> b; u.on_iter = [&](int) { b.push_back(bounds(*I.f)); S.ds.emplace_back(new sidre::DataStore); ((QN*)I.alg.get())->save_state_to_sidre_group(*newgroup(*S.ds.back())); };
  Run r = go(I, u); r.bounds = b; return r;
}
static string restart(const Model& M, const Opts& o)
{
  string mv; auto known = [&](string& e, const string& w) { if(e.compare(0, 6, "moved ") == 0) { if(mv.empty()) mv = w+e.substr(6); e.clear(); } };
  Saved S; Run R = reference(M, o, S); User w; prep(w, M); Instance N(w, "dense", o); Run F = go(N, w); string e = identical(R, F); if(!e.empty()) return "saving changes the solve: " + e;
  long cmp = 0; int flt = plain(o); std::ostringstream st; uint64_t h = 0;
  Instance* used = &N;     // has been run to its end
  for(size_t k = 0; k < S.ds.size(); k++) {
    const sidre::Group& G = *S.ds[k]->getRoot()->getGroup(GROUP);
    User u; prep(u, M); Instance I(u, "dense", o); I.make(); ((QN*)I.alg.get())->load_state_from_sidre_group(G);
    sidre::DataStore d2; ((QN*)I.alg.get())->save_state_to_sidre_group(*newgroup(d2)); e = groups(*d2.getRoot()->getGroup(GROUP), G); if(!e.empty()) return cat("state saved right after loading checkpoint ", k, " differs: ", e);
    Run r = go(I, u); e = continues(r, R, k, flt, moved(R, k), cmp); known(e, cat("from checkpoint ", k, ": ")); if(!e.empty()) return cat("from checkpoint ", k, ": ", e);
    if(success(r.s.st)) { string q = kkt(M, r.s.x, r.s.zl, r.s.zu, r.s.lam, 2e-5, nullptr, M.nfixed() == 0); if(!q.empty()) return cat("from checkpoint ", k, ": ", q); }
    Run again = go(I, u); e = identical(again, F); if(!e.empty()) return cat("a run after the one from checkpoint ", k, " is not a new solve: ", e);
    ((QN*)used->alg.get())->load_state_from_sidre_group(G); Run v = go(*used, w); e = identical(v, r); if(!e.empty()) return cat("checkpoint ", k, " loaded into a solver that was used: ", e);
    for(auto& i : r.it) h = hd(hd(h, i.obj), i.mu);
  }
  // through files
  string base = dir()+"/chk_#"; int N2 = 1+(int)(M.n % 2); Opts so = o; so.push_back({"checkpoint_save", "yes"}); so.push_back({"checkpoint_save_every_N_iter", std::to_string(N2)}); so.push_back({"checkpoint_file", base});
  auto file = [&](int k) { return dir()+"/chk_"+std::to_string(k); };
  { User u; prep(u, M); Instance I(u, "dense", so); Run r = go(I, u); e = identical(r, F); if(!e.empty()) return "saving to files changes the solve: " + e; }
  for(size_t k = 0; k < S.ds.size(); k++) {
    bool want = k > 0 && k % N2 == 0; struct stat b; bool have = ::stat((file(k)+".root").c_str(), &b) == 0; if(want != have) return cat("checkpoint file of iteration ", k, have ? " written" : " missing"); if(!want) continue;
    sidre::DataStore d; sidre::IOManager rd(MPI_COMM_WORLD); rd.read(d.getRoot(), file(k)+".root", false); e = groups(*d.getRoot()->getGroup(GROUP), *S.ds[k]->getRoot()->getGroup(GROUP)); if(!e.empty()) return cat("file of iteration ", k, ": ", e);
    for(int v = 0; v < 2; v++) { Opts lo = o; lo.push_back({"checkpoint_load_on_start", "yes"}); lo.push_back({"checkpoint_file", file(k)+(v ? ".root" : "")}); User u; prep(u, M); Instance I(u, "dense", lo); Run r = go(I, u); e = continues(r, R, k, flt, moved(R, k), cmp); known(e, cat("from file ", k, ": ")); if(!e.empty()) return cat("from file ", k, ": ", e); Run q = go(I, u); e = identical(q, r); if(!e.empty()) return cat("from file ", k, " for the second time: ", e); }
  }
  for(size_t k = 0; k < S.ds.size(); k++) cleanup(file(k));
  return cat(mv.empty() ? "ok " : "moved "+mv+"\n", cmp, " ", h, " ", S.ds.size());
}
// damaged or foreign checkpoints: the API refuses them, the option falls back to a new solve, and nothing of them remains
static string damaged(const Model& M, const Opts& o)
{
  Saved S; Run R = reference(M, o, S); size_t k = S.ds.size()/2; string e; long n = 0; string f = dir()+"/bad"; string res;
  auto copy = [&](sidre::Group& to, const sidre::Group& from) { for(auto& p : from.v) { auto* v = to.createViewAndAllocate(p.first, sidre::DOUBLE_ID, p.second->getNumElements()); std::copy(p.second->data(), p.second->data()+p.second->getNumElements(), v->getArray()); } };
  auto tryit = [&](const string& what, const std::function<void(sidre::Group&)>& f2, bool nogroup = false) {
    if(!res.empty()) return; n++; sidre::DataStore d; sidre::Group* G = d.getRoot()->createGroup(nogroup ? "another group" : GROUP); copy(*G, *S.ds[k]->getRoot()->getGroup(GROUP)); f2(*G);
    if(!nogroup) { User u; prep(u, M); Instance I(u, "dense", o); I.make(); bool thrown = false; try { ((QN*)I.alg.get())->load_state_from_sidre_group(*G); } catch(const std::runtime_error&) { thrown = true; } if(!thrown) { res = what+" is loaded"; return; } Run r = go(I, u); e = identical(r, R); if(!e.empty()) { res = cat("a solve after refusing ", what, ": ", e); return; } }
    sidre::IOManager w(MPI_COMM_WORLD); w.write(d.getRoot(), 1, f, ""); Opts lo = o; lo.push_back({"checkpoint_load_on_start", "yes"}); lo.push_back({"checkpoint_file", f}); User u; prep(u, M); Instance I(u, "dense", lo); for(int q = 0; q < 2; q++) { Run r = go(I, u); e = identical(r, R); if(!e.empty()) { res = cat("run ", q+1, " that should ignore a file with ", what, ": ", e); return; } }
    cleanup(f);
  };
  vector<string> names; for(auto& p : S.ds[k]->getRoot()->getGroup(GROUP)->v) names.push_back(p.first);
  for(auto& s : names) {
    tryit(s+" missing", [&](sidre::Group& g) { g.destroyView(s); });
    int64_t z = S.ds[k]->getRoot()->getGroup(GROUP)->getView(s)->getNumElements();
    tryit(s+" too long", [&](sidre::Group& g) { g.createViewAndAllocate(s, sidre::DOUBLE_ID, z+1); });
    if(z > 0) tryit(s+" too short", [&](sidre::Group& g) { g.createViewAndAllocate(s, sidre::DOUBLE_ID, z-1); });
  }
  tryit("another number of ranks", [&](sidre::Group& g) { g.getView("alg_params")->getArray()[2] = 2; });
  tryit("no state of HiOp", [&](sidre::Group&) {}, true);
  // a file that is not there, and one that is cut off
  for(int c = -1; c < 6 && res.empty(); c++) {
    n++; if(c >= 0) { sidre::DataStore d; copy(*newgroup(d), *S.ds[k]->getRoot()->getGroup(GROUP)); sidre::IOManager w(MPI_COMM_WORLD); w.write(d.getRoot(), 1, f, ""); struct stat b; ::stat((f+".root.0").c_str(), &b); (void)!::truncate((f+".root.0").c_str(), b.st_size*c/6); }
    Opts lo = o; lo.push_back({"checkpoint_load_on_start", "yes"}); lo.push_back({"checkpoint_file", f}); User u; prep(u, M); Instance I(u, "dense", lo); Run r = go(I, u); e = identical(r, R); if(!e.empty()) res = cat(c < 0 ? "without a file" : "with a file cut off", ": ", e); cleanup(f); }
  // a checkpoint of another memory length is refused, or continued with the pairs it holds
  for(int l : {0, 1, 2, 6, 9}) if(res.empty()) { n++; Opts lo = o; lo.push_back({"secant_memory_len", std::to_string(l)}); User u; prep(u, M); Instance I(u, "dense", lo); I.make(); User w; prep(w, M); Instance N(w, "dense", lo); Run F = go(N, w);
    bool thrown = false; try { ((QN*)I.alg.get())->load_state_from_sidre_group(*S.ds[k]->getRoot()->getGroup(GROUP)); } catch(const std::runtime_error&) { thrown = true; }
    Run r = go(I, u); if(thrown) { e = identical(r, F); if(!e.empty()) res = cat("a solve after refusing a checkpoint of another memory length: ", e); } else { if(same(r.it[0], R.it[k], true).size()) res = "a checkpoint of another memory length starts elsewhere"; if(!M.convex) continue; if(success(R.s.st) && !success(r.s.st)) res = cat("continued with memory ", l, ": status ", r.s.st); } }
  return res.empty() ? cat("ok ", n, " ", k, " ", S.ds.size()) : res;
}
// the variables distributed over ranks; checkpoints through files
static string ranks(const Model& M, const Opts& o, const vector<index_type>& part)
{
  int P = part.size()-1; string base = dir()+"/rk_#"; auto file = [&](int k) { return dir()+"/rk_"+std::to_string(k); };
  auto solve = [&](int np, const Opts& oo, vector<Run>& out, const vector<index_type>& pt) -> string { out.assign(np, Run()); sim::Config c; c.nranks = np; c.max_steps = 100000000L; c.sync_collectives = true;
    sim::Outcome w = sim::run(c, [&](int r) { User u; prep(u, M); u.part = pt; Instance I(u, "dense", oo); I.make(); u.on_iter = [&](int) { out[r].bounds.push_back(bounds(*I.f)); }; out[r].s.st = I.alg->run(); out[r].s.iters = I.alg->getNumIterations(); out[r].s.obj = I.alg->getObjective(); out[r].it = u.iters; }, [](const std::vector<int>& e, bool) { return e[0]; }); return w.ok ? "" : w.error; };
  vector<Run> R, r; Opts so = o; so.push_back({"checkpoint_save", "yes"}); so.push_back({"checkpoint_save_every_N_iter", "1"}); so.push_back({"checkpoint_file", base}); string e = solve(P, so, R, part); if(!e.empty()) return "saving run: "+e;
  long cmp = 0; int flt = plain(o); int K = R[0].it.size(); string mv;
  for(int k = 1; k < K; k++) { Opts lo = o; lo.push_back({"checkpoint_load_on_start", "yes"}); lo.push_back({"checkpoint_file", file(k)}); e = solve(P, lo, r, part); if(!e.empty()) return cat("from file ", k, ": ", e); bool mvd = false; for(auto& q : R) mvd = mvd || moved(q, k); for(int q = 0; q < P; q++) { e = continues(r[q], R[q], k, flt, mvd, cmp); if(e.compare(0, 6, "moved ") == 0) { if(mv.empty()) mv = cat("rank ", q, " from file ", k, ": ", e.substr(6)); break; } if(!e.empty()) return cat("rank ", q, " from file ", k, ": ", e); } }
  // with another number of ranks the checkpoint is refused on all of them, and a new solve is made
  if(K > 1) { vector<index_type> other(part); other.push_back(M.n); vector<Run> a, b; e = solve(P+1, o, a, other); if(!e.empty()) return e; Opts lo = o; lo.push_back({"checkpoint_load_on_start", "yes"}); lo.push_back({"checkpoint_file", file(1)}); e = solve(P+1, lo, b, other); if(!e.empty()) return "with one more rank: "+e; for(int q = 0; q <= P; q++) { e = identical(b[q], a[q]); if(!e.empty()) return cat("with one more rank, rank ", q, ": ", e); } }
  for(int k = 0; k < K; k++) cleanup(file(k));
  return cat(mv.empty() ? "ok " : "moved "+mv+"\n", cmp, " ", K, " ", K);
}
static void eval(const char* key, const std::function<string()>& f)
{
  Isolated is = isolated(f, 120); trace(); if(is.kind != Isolated::Ok) { fail(cat(key, "-abnormal"), is.describe()); return; }
  string t = is.text; if(t.compare(0, 6, "moved ") == 0) { size_t e = t.find('\n'); fail("moved-bounds", t.substr(6, e-6)); count("moved_bounds"); t = "ok "+t.substr(e+1); }
  if(t.compare(0, 3, "ok ")) { fail(key, t); return; } std::istringstream in(t.substr(3)); uint64_t a = 0, b = 0, c = 0; in >> a >> b >> c; trans(a); for(uint64_t i = 0; i < c; i++) state(mix(mix(hs(1, current()), b), i)); count("checkpoints", c);
}
#endif
void mc_body()
{
  vector<Opts> os = { {}, {{"accept_every_trial_step","yes"}}, {{"scaling_type","none"}}, {{"scaling_max_grad","2"}}, {{"secant_memory_len","2"}}, {{"secant_memory_len","0"}}, {{"max_soc_iter","0"}}, {{"mu0","0.1"}}, {{"duals_update_type","linear"},{"duals_init","zero"}}, {{"sigma_update_strategy","sty_inv"},{"sigma0","2"}}, {{"tau_min","0.5"},{"accept_every_trial_step","yes"}}, {{"fixed_var","remove"}}, {{"fixed_var","relax"}} };
  if(opt.thorough) os = pairs(os);
  for(auto& M : family(true)) for(auto& o : os) {
    bool fx = false; for(auto& p : o) fx = fx || p.k == "fixed_var"; if(fx && !M.nfixed()) continue;
#ifdef HIOP_USE_AXOM
    if(begin(cat("restart:", M.name, ":", ostr(o)))) eval("restart", [&] { return restart(M, o); });
    if(o.size() < 2 && begin(cat("damaged:", M.name, ":", ostr(o)))) eval("damaged", [&] { return damaged(M, o); });
    if(!fx) for(int P = 2; P <= (opt.thorough ? 3 : 2); P++) { vector<int> cut(P-1, 0), radix(P-1, M.n+1); do { bool up = true; for(int i = 1; i < P-1; i++) up = up && cut[i-1] <= cut[i]; if(!up) continue; vector<index_type> part(P+1, 0); part[P] = M.n; for(int i = 0; i < P-1; i++) part[i+1] = cut[i];
      if(begin(cat("ranks:", M.name, ":", vstr(part), ":", ostr(o)))) eval("ranks", [&] { return ranks(M, o, part); }); } while(advance(cut, radix)); }
#else
    // without Axom the options are refused with a warning and change nothing
    for(auto& c : vector<Opts>{{{"checkpoint_save","yes"}}, {{"checkpoint_load_on_start","yes"}}, {{"checkpoint_save","yes"},{"checkpoint_save_every_N_iter","1"},{"checkpoint_file",dir()+"/none"}}, {{"checkpoint_load_on_start","yes"},{"checkpoint_file",dir()+"/none"}}}) {
      if(!begin(cat("refused:", M.name, ":", ostr(o), ":", c.size(), c[0].k))) continue;
      Isolated is = isolated([&]() -> string { User u, w; prep(u, M); prep(w, M); Instance A(u, "dense", o); Run a = go(A, u); Opts q = o; for(auto& p : c) q.push_back(p); Instance B(w, "dense", q); string e; for(int k = 0; k < 2 && e.empty(); k++) e = identical(go(B, w), a); return e; });
      trace(); trans(2); state(hs(1, current())); if(is.kind != Isolated::Ok) fail("refused-abnormal", is.describe()); else if(!is.text.empty()) fail("refused", is.text);
    }
#endif
  }
}
