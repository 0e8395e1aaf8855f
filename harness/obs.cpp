// P01: watching a solve (printing, timing, writing linear systems) does not change it, and what is printed and written is true.
#include "nlp.hpp"
#include "simmpi/simmpi.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <set>
using namespace nlp; using namespace mc;
struct Run { Sol s; vector<Iter> it; string out, bad; };
static string slurp(const string& f) { string r; FILE* p = fopen(f.c_str(), "r"); if(!p) return r; char b[65536]; size_t n; while((n = fread(b, 1, sizeof b, p)) > 0) r.append(b, n); fclose(p); return r; }
static string logfile() { return opt.scratch+"/obs.log"; }
static void open_log() { fflush(stdout); int fd = open(logfile().c_str(), O_CREAT|O_TRUNC|O_WRONLY|O_APPEND, 0644); dup2(fd, 1); close(fd); }
static vector<string> kktfiles() { vector<string> r; for(int k = 0;; k++) { string f = opt.scratch+"/kkt_linsys_"+std::to_string(k)+".iajaaa"; if(access(f.c_str(), F_OK)) break; r.push_back(f); } return r; }
static void rm_kkt() { DIR* d = opendir(opt.scratch.c_str()); if(!d) return; while(dirent* e = readdir(d)) if(!strncmp(e->d_name, "kkt_linsys_", 11)) unlink((opt.scratch+"/"+e->d_name).c_str()); closedir(d); }
static Run solve(const Model& M, const string& form, Opts o, const Opts& w, int stop = -1)
{
  Run r; User u; u.M = &M; u.check_bounds = false; u.keep_iters = true; u.stop_at = stop; open_log();
  Instance I(u, form, o); set(*I.f->options, w); r.s = I.run(); r.it = u.iters; fflush(stdout); r.out = slurp(logfile()); return r;
}
static string same(const Run& a, const Run& b)
{
  if(a.s.st != b.s.st || a.s.iters != b.s.iters || a.it.size() != b.it.size()) return cat("status ", a.s.st, " after ", a.s.iters, " iterations instead of ", b.s.st, " after ", b.s.iters);
  for(size_t k = 0; k < b.it.size(); k++) { const Iter &p = a.it[k], &q = b.it[k];
    auto eq = [](const vector<double>& v, const vector<double>& w) { return v.size() == w.size() && (v.empty() || !memcmp(v.data(), w.data(), 8*v.size())); };
    if(!eq(p.x, q.x) || !eq(p.s, q.s) || !eq(p.zl, q.zl) || !eq(p.zu, q.zu) || !eq(p.lam, q.lam) || !eq({p.obj, p.mu, p.inf_pr, p.inf_du, p.alpha_pr, p.alpha_du}, {q.obj, q.mu, q.inf_pr, q.inf_du, q.alpha_pr, q.alpha_du})) return cat("iteration ", k, " differs: x=", vstr(p.x), " instead of ", vstr(q.x)); }
  if(a.s.x != b.s.x || a.s.zl != b.s.zl || a.s.zu != b.s.zu || a.s.lam != b.s.lam || a.s.obj != b.s.obj) return "the solutions differ"; return "";
}
static const char* message(int st)
{
  switch(st) { case Solve_Success: return "Successfull termination.\n"; case Solve_Success_RelTol: return "Successfull termination (error within the relative tolerance)"; case Solve_Acceptable_Level: return "Solve to only to the acceptable tolerance(s)"; case Max_Iter_Exceeded: return "Maximum number of iterations reached";
    case Steplength_Too_Small: return "Linesearch returned unsuccessfully (small step)"; case User_Stopped: return "Stopped by the user through the user provided iterate callback"; case Error_In_FR: return "Feasibility restoration problem failed to converge"; case Infeasible_Problem: return "Inaccurate gradients/Jacobians or locally infeasible problem.\n"; case Error_In_User_Function: return "Hiop stopped because a user function reported an error"; case Err_Step_Computation: return "Error in step computation/linear algebra (unrecoverable)"; }
  return "";
}
static vector<string> lines(const string& t) { vector<string> r; std::istringstream in(t); string l; while(std::getline(in, l)) r.push_back(l); return r; }
// the table of iterations in t is the one of r
static string table(const Run& r, const string& t, bool printed, long& rows)
{
  vector<string> L = lines(t); size_t k = 0; int heads = 0;
  for(auto& l : L) {
    if(l.compare(0, 20, "iter    objective   ") == 0) { heads++; continue; }
    int it, c = 0; double a[6]; if(sscanf(l.c_str(), "%d %lf %lf %lf %lf %lf %lf %n", &it, a, a+1, a+2, a+3, a+4, a+5, &c) != 7 || !c) continue; string rest = l.substr(c); if(rest.size() < 4 || rest[rest.size()-1] != ')' || rest[rest.size()-3] != '(') continue;
    if(k >= r.it.size()) return cat("more rows than iterations: ", l); const Iter& q = r.it[k]; rows++;
    char e[300]; snprintf(e, sizeof e, "%14.7e %7.3e  %7.3e %6.2f  %7.3e  %7.3e  ", q.obj, q.inf_pr, q.inf_du, std::log10(q.mu), q.alpha_du, q.alpha_pr); size_t p = l.find_first_not_of(" "); p = l.find(' ', p); string g = l.substr(p+1, l.size()-p-1-rest.size());
    if(g != e) return cat("row ", k, " is '", g, "' instead of '", e, "'"); if(it < (int)k || (k == 0 && it)) return cat("row ", k, " is numbered ", it);
    char ty = rest[rest.size()-2]; if((rest == "-(-)") != (k == 0)) return cat("row ", k, " has line search '", rest, "'"); if(k && !strchr("shfSHFR?", ty)) return cat("row ", k, " has step type '", rest, "'"); k++;
  }
  if(!printed) return k || heads ? "iterations are printed at this verbosity" : ""; if(k != r.it.size()) return cat(k, " rows for ", r.it.size(), " iterations"); if(heads == 0 && k) return "no header"; return "";
}
static string says(const Run& r, int verb)
{
  const char* m = message(r.s.st); if(verb >= 3 && r.out.find(m) == string::npos) return cat("status ", r.s.st, " without its message '", m, "'");
  for(int st : {Solve_Success, Solve_Success_RelTol, Solve_Acceptable_Level, Max_Iter_Exceeded, User_Stopped, Error_In_User_Function}) if((verb < 3 || st != r.s.st) && r.out.find(message(st)) != string::npos) return cat("status ", r.s.st, " announced as '", message(st), "'");
  return "";
}
// what print_options shows: every option with its value
static string options(const Run& r, const Opts& o, const string& how)
{
  bool seen = r.out.find("# end of Hiop options") != string::npos; if(how == "no") return seen ? "options printed" : ""; if(!seen) return "options not printed";
  for(auto& p : o) { if(p.k == "Hessian") continue; bool f = false; for(auto& l : lines(r.out)) { std::istringstream in(l); string n, v; in >> n >> v; if(n != p.k) { string x; std::istringstream i2(l); if(l.find(" "+p.k+" ") == string::npos) continue; size_t q = l.find(" "+p.k+" "); std::istringstream i3(l.substr(q)); i3 >> n >> v; } if(n != p.k) continue; char* e; double d = strtod(p.v.c_str(), &e); bool num = *e == 0; if(num ? std::fabs(strtod(v.c_str(), nullptr)-d) <= 6e-4*std::fabs(d) : v == p.v) f = true; } if(!f) return cat("option ", p.k, " is not shown with value ", p.v); }
  return "";
}
// the linear systems written: dimensions, one triangle, and each solution solves its system
static string systems(const Model& M, const string& form, const Run& r, bool matrix, long& n)
{
  auto F = kktfiles(); size_t steps = r.it.empty() ? 0 : r.it.size()-1; if(F.size() < steps && r.s.st == Solve_Success) return cat(F.size(), " systems written in ", steps, " iterations"); int me = 0, mi = 0; for(int k = 0; k < M.m; k++) (M.eq(k) ? me : mi)++; if(form == "sparseineq") mi += me, me = 0;
  for(size_t k = 0; k < F.size() && matrix; k++) {
    std::istringstream in(slurp(F[k])); long m, nx, eq, iq, nnz; if(!(in >> m >> nx >> eq >> iq >> nnz)) return cat("system ", k, " has no header"); if(nx != M.n || eq != me || iq != mi) return cat("system ", k, " says ", nx, " variables, ", eq, " equalities, ", iq, " inequalities");
    vector<long> ptr(m+1), col(nnz); vector<double> a(nnz); for(auto& v : ptr) in >> v; for(auto& v : col) in >> v; bool fin = true; string tok; for(auto& v : a) { in >> tok; v = strtod(tok.c_str(), nullptr); fin = fin && std::isfinite(v); } if(!in) return cat("system ", k, " is cut off"); if(ptr[0] != 1 || ptr[m] != nnz+1) return cat("system ", k, " has row pointers from ", ptr[0], " to ", ptr[m]);
    bool lo = false, up = false; for(long i = 0; i < m; i++) { if(ptr[i+1] < ptr[i]) return "row pointers decrease"; for(long q = ptr[i]-1; q < ptr[i+1]-1; q++) { if(col[q] < 1 || col[q] > m) return cat("column ", col[q]); lo = lo || col[q]-1 < i; up = up || col[q]-1 > i; } } if(lo && up) return cat("system ", k, " has entries in both triangles");
    vector<double> b; double v; while(in >> v) b.push_back(v); if(!in.eof()) return cat("system ", k, " has something else behind"); if(m == 0) { if(b.size()) return "numbers of an empty system"; continue; } if(!fin && b.size()) return cat("system ", k, " is not finite but solved"); if(b.size() % (2*m)) return cat("system ", k, " has ", b.size(), " numbers of right-hand sides and solutions for ", m, " rows");
    for(size_t s = 0; s < b.size(); s += 2*m) { vector<double> y(m, 0), w(m, 0); const double *B = b.data()+s, *X = B+m; for(long i = 0; i < m; i++) for(long q = ptr[i]-1; q < ptr[i+1]-1; q++) { long j = col[q]-1; y[i] += a[q]*X[j]; w[i] += std::fabs(a[q]*X[j])+1e-14*std::fabs(a[q]); if(j != i) { y[j] += a[q]*X[i]; w[j] += std::fabs(a[q]*X[i])+1e-14*std::fabs(a[q]); } }
      double wn = 0, bn = 0; for(long i = 0; i < m; i++) { wn = std::max(wn, w[i]); bn = std::max(bn, std::fabs(B[i])); } n++;
      for(long i = 0; i < m; i++) if(!(std::fabs(y[i]-B[i]) <= 1e-6*(wn+bn)+1e-15)) return cat("system ", k, ", pair ", s/(2*m), ": row ", i, " of matrix times solution is ", y[i], ", the right-hand side ", B[i]); }
  }
  return "";
}
static void report(const char* key, const std::function<string()>& f)
{
  Isolated is = isolated(f, 120); trace(); if(is.kind != Isolated::Ok) { fail(cat(key, "-abnormal"), is.describe()); return; } if(is.text.compare(0, 3, "ok ")) { fail(key, is.text); return; }
  std::istringstream in(is.text.substr(3)); uint64_t a = 0, b = 0, c = 0; in >> a >> b >> c; trans(a); for(uint64_t i = 0; i < a; i++) state(mix(hs(1, current()), i)); count("rows", b); count("systems", c);
}
static string watch(const Model& M, const string& form, const Opts& o)
{
  Run R = solve(M, form, o, {}); string e; long rows = 0, n = 0, runs = 0; rm_kkt(); e = table(R, R.out, false, rows); if(!e.empty()) return e;
  auto tryit = [&](const Opts& w, int verb, const string& po) { if(!e.empty()) return; runs++; Run r = solve(M, form, o, w); e = same(r, R); if(e.empty()) e = table(r, r.out, verb >= 3, rows); if(e.empty()) e = says(r, verb); if(e.empty()) { Opts all = o; for(auto& p : w) all.push_back(p); e = options(r, all, verb >= 3 ? po : "no"); } if(!e.empty()) e = ostr(w)+": "+e; };
  for(int v = 0; v <= 12; v++) tryit({{"verbosity_level", std::to_string(v)}}, v, "no");
  for(auto po : {"yes", "short", "no"}) tryit({{"verbosity_level","3"},{"print_options",po}}, 3, po);
  for(auto v : {"0", "3", "12"}) tryit({{"verbosity_level",v},{"time_kkt","on"}}, atoi(v), "no");
  if(e.empty()) { Run r = solve(M, form, o, {{"write_kkt","yes"}}); runs++; e = same(r, R); bool mds = form.compare(0, 3, "mds") == 0, mat = mds || form == "sparse"; for(auto& p : o) if(p.k == "KKTLinsys" && (p.v == "condensed")) mat = false; else if(p.k == "Hessian") mat = false; if(form == "dense") mat = false;
    if(e.empty() && mat) e = systems(M, form, r, mat, n); if(!e.empty()) e = "write_kkt: "+e; if(!getenv("KEEP")) rm_kkt(); }
  return e.empty() ? cat("ok ", runs*R.it.size(), " ", rows, " ", n) : e;
}
static string stopped(const Model& M, const string& form, int k)
{
  Run R = solve(M, form, {}, {}, k); string e; long rows = 0; for(int v : {0, 2, 3, 12}) { Run r = solve(M, form, {}, {{"verbosity_level", std::to_string(v)}}, k); e = same(r, R); if(e.empty()) e = table(r, r.out, v >= 3, rows); if(e.empty()) e = says(r, v); if(!e.empty()) return cat("verbosity ", v, ": ", e); }
  return cat("ok ", 4*R.it.size(), " ", rows, " 0");
}
// distributed: only one rank prints
static string ranks(const Model& M, const vector<index_type>& part, const Opts& o)
{
  int P = part.size()-1; string e; long rows = 0; vector<Run> R;
  for(int v : {0, 3, 12}) { vector<Run> r(P); open_log(); sim::Config c; c.nranks = P; c.max_steps = 100000000L; c.sync_collectives = true;
    sim::Outcome w = sim::run(c, [&](int q) { User u; u.M = &M; u.check_bounds = false; u.keep_iters = true; u.part = part; Instance I(u, "dense", o); I.f->options->SetIntegerValue("verbosity_level", v); I.make(); r[q].s.st = I.alg->run(); r[q].s.iters = I.alg->getNumIterations(); r[q].s.obj = I.alg->getObjective(); r[q].it = u.iters; }, [](const std::vector<int>& en, bool) { return en[0]; });
    if(!w.ok) return w.error; fflush(stdout); string out = slurp(logfile()); if(v == 0) R = r; for(int q = 0; q < P; q++) { e = same(r[q], R[q]); if(!e.empty()) return cat("verbosity ", v, " rank ", q, ": ", e); } e = table(r[0], out, v >= 3, rows); if(!e.empty()) return cat("verbosity ", v, ": ", e); r[0].out = out; e = says(r[0], v); if(!e.empty()) return cat("verbosity ", v, ": ", e); }
  return cat("ok ", 3*R[0].it.size(), " ", rows, " 0");
}
void mc_body()
{
  vector<Opts> os = { {}, {{"scaling_type","none"}}, {{"scaling_max_grad","5"}}, {{"duals_update_type","linear"}}, {{"fixed_var","remove"}}, {{"fixed_var","relax"}}, {{"accept_every_trial_step","yes"}}, {{"mu0","0.1"}}, {{"elastic_mode","correct_it"}}, {{"max_iter","3"}}, {{"acceptable_tolerance","0.01"},{"acceptable_iterations","2"}}, {{"rel_tolerance","0.001"}} };
  auto one = [&](const Model& M, const string& form, const Opts& o) { for(auto& p : o) if(p.k == "fixed_var" && (!M.nfixed() || (p.v == "remove" && form != "dense"))) return; if(begin(cat("watch:", M.name, ":", form, ":", ostr(o)))) report("watch", [&] { return watch(M, form, o); }); };
  if(opt.thorough) os = pairs(os);
  for(auto& M : family(true)) {
#ifdef HIOP_SPARSE
    vector<Opts> sp = os; for(auto& e : vector<Opts>{{{"KKTLinsys","xdycyd"}}, {{"fact_acceptor","inertia_free"}}, {{"force_resto","yes"}}, {{"linsol_mode","forcequick"}}, {{"linsol_mode","speculative"}}}) sp.push_back(e);
    for(auto& o : sp) one(M, "sparse", o);
    if(M.sepqp() && M.convex) one(M, "sparse", {{"KKTLinsys","normaleqn"}});
    for(auto& o : vector<Opts>{{{"KKTLinsys","condensed"}}, {{"KKTLinsys","condensed"},{"scaling_type","none"}}}) one(M, "sparseineq", o);
    continue;
#endif
    for(auto& o : os) one(M, "dense", o);
    vector<Opts> mds = os; for(auto& e : vector<Opts>{{{"Hessian","quasinewton_approx"}}, {{"KKTLinsys","xdycyd"}}, {{"fact_acceptor","inertia_free"}}, {{"force_resto","yes"}}, {{"linsol_mode","speculative"}}}) mds.push_back(e);
    for(int k = 0; k <= M.n; k++) if(MDS::fits(M, k)) { for(auto& o : mds) one(M, cat("mds", k), o); for(int s = 0; s < 4; s++) if(begin(cat("stopped:", M.name, ":mds", k, ":", s))) report("stopped", [&] { return stopped(M, cat("mds", k), s); }); }
    for(int s = 0; s < 4; s++) if(begin(cat("stopped:", M.name, ":dense:", s))) report("stopped", [&] { return stopped(M, "dense", s); });
    for(int c = 0; c <= M.n; c++) { vector<index_type> part{0, c, M.n}; for(auto& o : vector<Opts>{{}, {{"accept_every_trial_step","yes"}}}) if(begin(cat("ranks:", M.name, ":", vstr(part), ":", ostr(o)))) report("ranks", [&] { return ranks(M, part, o); }); }
  }
}
