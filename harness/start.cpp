// W01: the starting point, slacks and multipliers a user gives are the ones the algorithm starts from, in every combination.
#include "form.hpp"
using namespace kf;

static std::string bad;
#define require(ok, ...) do { if(!(ok) && bad.empty()) bad = __VA_ARGS__; } while(0)
static bool close(double a, double b, double z) { return a == b || std::fabs(a-b) <= 1e-11*std::max({std::fabs(a), std::fabs(b), z})+1e-13; }
static void cmp(const std::string& w, const V& g, const V& e) { require(g.size() == e.size(), cat(w, ": wrong size")); for(size_t i = 0; i < e.size() && i < g.size(); i++) if(!close(g[i], e[i], 0)) { require(false, cat(w, "[", i, "] is ", g[i], " instead of ", e[i])); return; } }
enum { NONE, PRIMAL, EXT_X, EXT_DUAL, EXT_SLACK, EXT_BOTH, WARM, WARM_FALSE, WARM_NONE, EXT_LIES, NMODE };
static const char* mname[] = {"no start", "primal", "full: x only", "full: multipliers", "full: slacks", "full: multipliers and slacks", "warm start", "warm start refused", "warm start and no start", "full refused after announcing multipliers"};
struct Given { V x, zl, zu, lam, s, vl, vu; };
static double pos(double l, double u, int k, int i)
{ bool L = l > -INF, U = u < INF; double w = L && U ? u-l : 2; switch(k) { case 0: return L ? l+0.4*w : U ? u-0.4*w : 0.5+i; case 1: return L ? l-1.5 : U ? u+1.5 : -3.25; case 2: return L ? l : U ? u : 0; case 3: return U ? u+0.75 : L ? l+1e-3 : 1e3; default: return U ? u-1e-9*w : L ? l+1e-9*w : -1e-9; } }
static Given given(const Model& M, int p, int dk)
{
  Given g; int q = 0; for(int i = 0; i < M.n; i++) { g.x.push_back(pos(M.xl[i], M.xu[i], p < 5 ? p : (p+i) % 5, i)); }
  int c = dk; auto val = [&]() { c++; return dk == 0 ? 0.25+0.5*c : dk == 1 ? (c % 3 ? 1e3/c : 0.) : 1e-7*c; };
  for(int i = 0; i < M.n; i++) { g.zl.push_back(val()); g.zu.push_back(val()); } for(int k = 0; k < M.m; k++) g.lam.push_back((k % 2 ? -1 : 1)*val());
  for(int k = 0; k < M.m; k++) if(!M.eq(k)) { g.s.push_back(pos(M.cl[k], M.cu[k], p < 5 ? (p+(p ? q : 0)) % 5 : 4-q, q)); g.vl.push_back(val()); g.vu.push_back(val()); q++; }
  return g;
}
static void hook(nlp::User& u, const Given& G, int mode)
{
  const Model& M = *u.M; u.has_x0 = mode == PRIMAL || mode == WARM_FALSE || mode == EXT_LIES;
  auto cp = [](double* to, const V& from) { for(size_t i = 0; i < from.size(); i++) to[i] = from[i]; };
  (void)M;
  if((mode >= EXT_X && mode <= EXT_BOTH) || mode == EXT_LIES) u.start = [&G, mode, cp](double* x, bool& da, double* zl, double* zu, double* lam, bool& sa, double* s) {
    da = mode == EXT_DUAL || mode == EXT_BOTH || mode == EXT_LIES; sa = mode == EXT_SLACK || mode == EXT_BOTH || mode == EXT_LIES; if(mode == EXT_LIES) return false;
    cp(x, G.x); if(da) { cp(zl, G.zl); cp(zu, G.zu); cp(lam, G.lam); } if(sa) cp(s, G.s); return true; };
  if(mode == WARM) u.warm = [&G, cp](double* x, double* zl, double* zu, double* lam, double* s, double* vl, double* vu) { cp(x, G.x); cp(zl, G.zl); cp(zu, G.zu); cp(lam, G.lam); cp(s, G.s); cp(vl, G.vl); cp(vu, G.vu); return true; };
}
static double project(double x, double l, double u, bool L, bool U, double k1, double k2)
{
  if(L && U) { double a = l+std::min(k1*std::max(1., std::fabs(l)), k2*(u-l)), b = u-std::min(k1*std::max(1., std::fabs(u)), k2*(u-l)); return x < a ? a : x > b ? b : x; }
  if(L) return std::max(x, l+k1*std::max(1., std::fabs(l))); if(U) return std::min(x, u-k1*std::max(1., std::fabs(u))); return x;
}
static void one(const Model& M0, const std::string& form, const Opts& o0, int mode, int p, int dk)
{
  Model M = M0; Given G = given(M, p, dk); M.x0 = G.x; Opts o = o0; if(mode >= WARM && mode <= WARM_NONE) o.push_back({"warm_start","yes"});
  double k1 = 1e-2, k2 = 1e-2, mu0 = 1; bool lsq = true; for(auto& q : o) { if(q.k == "kappa1") k1 = atof(q.v.c_str()); if(q.k == "kappa2") k2 = atof(q.v.c_str()); if(q.k == "mu0") mu0 = atof(q.v.c_str()); if(q.k == "duals_init") lsq = q.v == "lsq"; }
  nlp::User u; u.M = &M; u.check_bounds = false; u.stop_at = 0; u.keep_iters = true; hook(u, G, mode);
  nlp::Instance in(u, form, o); in.make(); auto st = in.alg->run(); trans(); require(st == User_Stopped, cat("run() stopped in iteration 0 returns ", (int)st)); for(auto& s : u.bad) require(false, s);
  hiopIterate* it = in.alg->get_it_curr(); if(!it || !bad.empty() || u.iters.empty()) { require(false, "no iterate"); return; }
  Ref R(M, o); int n = R.keep.size(), mi = R.in.size(), me = R.eq.size(); bool have = mode != NONE && mode != WARM_NONE, da = mode == EXT_DUAL || mode == EXT_BOTH || mode == WARM, sa = mode == EXT_SLACK || mode == EXT_BOTH || mode == WARM, warm = mode == WARM;
  V x; for(int i : R.keep) x.push_back(have ? G.x[i] : 0.); R.scale(x, o);
  auto fin = [](double v) { return std::fabs(v) < INF; };
  if(!warm) for(int i = 0; i < n; i++) x[i] = project(x[i], R.xl[i], R.xu[i], fin(M.xl[R.keep[i]]), fin(M.xu[R.keep[i]]), k1, k2);
  Full g; g.x = get(it->get_x()); cmp("x", g.x, x);
  V d = R.cons(x, R.in, R.sd); if(sa) for(int k = 0; k < mi; k++) d[k] = G.s[k]*R.sd[k];
  if(!warm) for(int k = 0; k < mi; k++) d[k] = project(d[k], R.dl[k], R.du[k], fin(R.dl0[k]), fin(R.du0[k]), k1, k2);
  V gd = get(it->get_d()); cmp("inequality slack", gd, d);
  auto sl = [&](const char* w, const V& got, const V& a, const V& b, const std::function<bool(int)>& ex, double sg) { for(size_t i = 0; i < got.size(); i++) if(ex(i)) { double e = sg*(a[i]-b[i]), z = std::max(std::fabs(a[i]), std::fabs(b[i])); require(got[i] > 0, cat(w, "[", i, "] is ", got[i])); if(e > 1e-15*(1+z)) require(std::fabs(got[i]-e) <= 4e-16*(1+z)+1e-12*e, cat(w, "[", i, "] is ", got[i], " instead of ", e)); } else require(got[i] == 0, cat(w, "[", i, "] of a missing bound is ", got[i])); };
  auto L = [&](int i) { return fin(M.xl[R.keep[i]]); }; auto U = [&](int i) { return fin(M.xu[R.keep[i]]); }; auto DL = [&](int k) { return fin(R.dl0[k]); }; auto DU = [&](int k) { return fin(R.du0[k]); };
  sl("sxl", get(it->get_sxl()), x, R.xl, L, 1); sl("sxu", get(it->get_sxu()), x, R.xu, U, -1); sl("sdl", get(it->get_sdl()), d, R.dl, DL, 1); sl("sdu", get(it->get_sdu()), d, R.du, DU, -1);
  V zl(n), zu(n), vl(mi), vu(mi), yc(me), yd(mi); g.sdl = get(it->get_sdl()); g.sdu = get(it->get_sdu());
  for(int i = 0; i < n; i++) { if(L(i)) zl[i] = da ? R.so*G.zl[R.keep[i]] : 1; if(U(i)) zu[i] = da ? R.so*G.zu[R.keep[i]] : 1; }
  for(int k = 0; k < mi; k++) { if(DL(k)) vl[k] = warm ? R.so*G.vl[k]/R.sd[k] : da ? mu0/g.sdl[k] : 1; if(DU(k)) vu[k] = warm ? R.so*G.vu[k]/R.sd[k] : da ? mu0/g.sdu[k] : 1; yd[k] = da ? R.so*G.lam[R.in[k]]/R.sd[k] : 0; } for(int k = 0; k < me; k++) yc[k] = da ? R.so*G.lam[R.eq[k]]/R.sc[k] : 0;
  cmp("zl", get(it->get_zl()), zl); cmp("zu", get(it->get_zu()), zu); cmp("vl", get(it->get_vl()), vl); cmp("vu", get(it->get_vu()), vu);
  if(da || !lsq) { cmp("equality multiplier", get(it->get_yc()), yc); cmp("inequality multiplier", get(it->get_yd()), yd); }
  else for(auto* v : {it->get_yc(), it->get_yd()}) for(double t : get(v)) require(std::isfinite(t), "least-squares multipliers are not finite");
  // and as the user sees it
  auto& I0 = u.iters[0]; require(I0.it == 0, "first report is not iteration 0"); cmp("x reported", I0.x, R.full(x)); if(da) { V ez(M.n, 0.), eu(M.n, 0.); for(int i = 0; i < n; i++) { if(L(i)) ez[R.keep[i]] = G.zl[R.keep[i]]; if(U(i)) eu[R.keep[i]] = G.zu[R.keep[i]]; } cmp("zl reported", I0.zl, ez); cmp("zu reported", I0.zu, eu); cmp("lambda reported", I0.lam, G.lam); } if(warm) cmp("s reported", I0.s, G.s);
  require(close(I0.mu, mu0, 0), cat("barrier parameter ", I0.mu, " instead of ", mu0));
}
// whole solves from every kind of start
static void solve(const Model& M0, const std::string& form, const Opts& o0, int mode, int p, int dk)
{
  Model M = M0; Given G = given(M, p, dk); M.x0 = G.x; Opts o = o0; if(mode >= WARM && mode <= WARM_NONE) o.push_back({"warm_start","yes"});
  Isolated is = isolated([&]() -> std::string { nlp::User u; u.M = &M; u.check_bounds = false; hook(u, G, mode); nlp::Instance in(u, form, o); nlp::Sol s = in.run(); if(!nlp::success(s.st)) return cat("status ", (int)s.st); return nlp::kkt(M, s.x, s.zl, s.zu, s.lam, 1e-4); });
  trans(); trace(); if(is.kind != Isolated::Ok) fail("solve-abnormal", cat(mname[mode], " pattern ", p, " ", dk, ": ", is.text)); else if(!is.text.empty()) fail("solve", cat(mname[mode], " pattern ", p, " ", dk, ": ", is.text)); state(hs(hs(hs(p*100+dk*10+mode, M.name), form), nlp::ostr(o)));
}
void mc_body()
{
  std::vector<Opts> os = { {}, {{"scaling_type","none"},{"duals_init","zero"}}, {{"scaling_max_grad","10"},{"duals_init","zero"}}, {{"scaling_max_con_grad","2"},{"scaling_max_obj_grad","1e-2"}}, {{"mu0","0.1"},{"kappa1","0.1"},{"kappa2","0.3"},{"duals_init","zero"}}, {{"bound_relax_perturb","0.25"}},
    {{"fixed_var","remove"},{"duals_init","zero"}}, {{"fixed_var","remove"},{"scaling_max_grad","10"}}, {{"fixed_var","relax"}} };
  for(int n = 1; n <= (opt.thorough ? 4 : 3); n++) for(int m = 0; m <= 3; m++) shapes(n, m, n+m > (opt.thorough ? 4 : 3) || n > 3, [&](const I& vt, const I& ct) {
    bool anyfix = false; for(int t : vt) anyfix = anyfix || t >= 4;
    std::vector<std::string> forms; for(auto& s : nlp::forms(n)) if(s.compare(0, 3, "mds") || opt.thorough || s == "mds0" || s == cat("mds", n/2+1)) forms.push_back(s);
    for(auto& form : forms) { if(!mc::begin(cat("start:", form, ":", shape_name(vt, ct)))) continue; for(int data = 1; data < 3; data++) { Model M = shape_model(vt, ct, nlp::ns_of(form, n, data), data);
        for(auto& o : os) { bool rem = false, rlx = false; for(auto& p : o) if(p.k == "fixed_var") { rem = p.v == "remove"; rlx = p.v == "relax"; } if((rem || rlx) && (!anyfix || data == 2)) continue; if(rem && form != "dense") continue; if(Ref(M, o).keep.empty()) continue;
          for(int mode = 0; mode < NMODE; mode++) for(int p = 0; p < (mode == NONE || mode == WARM_NONE ? 1 : opt.thorough ? 10 : 7); p++) for(int dk = 0; dk < (mode == EXT_DUAL || mode == EXT_BOTH || mode == WARM ? 3 : 1); dk++) {
            if(mode == WARM && dk == 1) continue;   // a warm start has positive multipliers
            one(M, form, o, mode, p, dk); trace(); state(hs(hs(hs(p*1000+dk*100+mode*10+data, shape_name(vt, ct)), form), nlp::ostr(o)));
            if(!bad.empty()) { fail(cat("start:", mname[mode]), cat(shape_name(vt, ct), " ", form, " data ", data, " ", nlp::ostr(o), " pattern ", p, " ", dk, ": ", bad)); bad.clear(); } } } } }
  });
  for(auto& M : nlp::family(true)) { if(!M.convex || !M.feasible) continue; std::vector<std::string> forms = nlp::forms(M.n, &M);
    for(auto& form : forms) { if(!mc::begin(cat("startsolve:", form, ":", M.name))) continue;
      for(auto& o : std::vector<Opts>{{}, {{"scaling_max_grad","1"}}}) for(int mode : {NONE, PRIMAL, EXT_DUAL, EXT_SLACK, EXT_BOTH, WARM, WARM_FALSE, WARM_NONE}) for(int p = 0; p < (mode == NONE || mode == WARM_NONE ? 1 : opt.thorough ? 7 : 3); p++) for(int dk = 0; dk < (mode == WARM ? 3 : mode == EXT_BOTH || mode == EXT_DUAL ? 2 : 1); dk++) if(mode != WARM || (p == 0 && dk != 1)) solve(M, form, o, mode, p, dk); } }
}
