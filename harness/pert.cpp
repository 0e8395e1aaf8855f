// Regularization (PD perturbation) and factorization acceptors: every sequence of factorization outcomes up to a depth against a reference
// machine written from the documented rules (Ipopt's inertia correction), with the general invariants checked separately.
#include "kfix.hpp"
using namespace kf;

struct Prm { double wmin, wmax, w0, km, kpb, kp, cb, kc; };
enum Flag { U, N, D };
enum Test { None, C0W0, CW0, C0W, CW };

// reference: perturb the primal block first
struct Ref {
  Prm p; double mu = 1e-1, w = 0, c = 0, wl = 0, cl = 0; Flag h = U, j = U; int deg = 0; Test t = None; bool dual;
  bool failed_w = false;
  Ref(const Prm& q, bool d) : p(q), dual(d) {}
  void settle()
  {
    switch(t) {
      case None: return;
      case C0W0: if(h == U) h = N; if(j == U) j = N; break;                                   // the unperturbed matrix was not singular
      case CW0: if(h == U) h = N; if(j == U && ++deg >= 3) j = D; break;
      case C0W: if(j == U) j = N; if(h == U && ++deg >= 3) h = D; break;
      case CW: if(++deg >= 3) h = j = D; break;
    }
  }
  double dc() const { return p.cb*std::pow(mu, p.kc); }
  bool growW()
  {
    if(w == 0) w = wl == 0 ? p.w0 : std::max(p.wmin, wl*p.km); else w *= (wl == 0 || 1e5*wl < w) ? p.kpb : p.kp;
    if(w > p.wmax) { wl = 0; return false; } return true;
  }
  bool growC()
  {
    if(c == 0) c = cl == 0 ? std::max(1e-20, dc()) : std::max(1e-20, cl*p.km); else c *= (cl == 0 || 1e5*cl < c) ? p.kpb : 10.;
    if(c > p.wmax) { cl = 0; return false; } return true;
  }
  bool init()
  {
    settle(); if(w > 0) wl = w; if(c > 0) cl = c;
    t = (h == U || j == U) ? C0W0 : None; c = w = 0;
    if(dual) { if(j == D && !growC()) return false; if(h == D && !growW()) return false; return true; }
    if(j == D) c = dc();
    if(h == D && !growW()) return false;
    return true;
  }
  bool wrong()
  {
    settle();
    if(dual) { bool r = growC(); if(!r && w == 0) { c = 0; if(!growW()) return false; t = None; if(j == D) j = U; r = growC(); } return r; }
    bool r = growW();
    if(!r && c == 0) { w = 0; c = dc(); t = None; if(h == D) h = U; r = growW(); }
    return r;
  }
  bool singular()
  {
    if(dual) return wrong();
    if(h == U || j == U) switch(t) {
      case C0W0: if(j == U) { c = dc(); t = CW0; return true; } if(!growW()) return false; t = C0W; return true;
      case CW0: if(w > 0) { if(!growW()) return false; t = CW; return true; } c = 0; if(!growW()) return false; t = C0W; return true;
      case C0W: c = dc(); if(!growW()) return false; t = CW; return true;
      case CW: case None: return growW();
    }
    if(c > 0) return growW();
    c = dc(); return true;
  }
};

static const char* cls[] = {"primal", "primal-rand", "dual", "dual-rand"};
static hiopPDPerturbation* make(int k)
{
  switch(k) { case 0: return new hiopPDPerturbationPrimalFirstScalar(); case 1: return new hiopPDPerturbationPrimalFirstRand(); case 2: return new hiopPDPerturbationDualFirstScalar(); default: return new hiopPDPerturbationDualFirstRand(); }
}
static const Prm prms[] = {
  {1e-20, 1e20, 1e-4, 1./3, 100., 8., 1e-8, 0.25},
  {1e-2, 1e1, 1e-1, 0.25, 16., 4., 1e-3, 0.5},          // the largest perturbation is reached after a few corrections
  {0.5, 1e3, 1e-1, 0.01, 8., 2., 1e-1, 0.},             // the smallest perturbation takes effect
  {1e-20, 0.5, 1., 1./3, 100., 8., 1e-8, 0.25},         // the first perturbation is already too large
  {1e-20, 1e12, 1e-4, 0.1, 2e3, 9e2, 1e-8, 0.25},       // the jump of 1e5 from the last perturbation takes few corrections
};
static nlp::Opts optsof(const Prm& p)
{
  auto s = [](double v) { return mc::str(v); };
  return {{"delta_w_min_bar", s(p.wmin)}, {"delta_w_max_bar", s(p.wmax)}, {"delta_0_bar", s(p.w0)}, {"kappa_w_minus", s(p.km)}, {"kappa_w_plus_bar", s(p.kpb)}, {"kappa_w_plus", s(p.kp)}, {"delta_c_bar", s(p.cb)}, {"kappa_c", s(p.kc)}};
}
// events: 0/1 new system with mu 1e-1 / 1e-6, 2 singular, 3 wrong inertia, 4 reinitialize (then a new system, mu 1e-1)
static const char* ename[] = {"new(mu=.1)", "new(mu=1e-6)", "singular", "wrong inertia", "reinitialize"};

// viaacc: 0 direct calls, 1 inertia acceptor, 2 inertia-free acceptor
static bool run(Fix& F, const Prm& p, int k, const std::vector<int>& ev, int viaacc, int nreq)
{
  std::unique_ptr<hiopPDPerturbation> pd(make(k)); Ref r(p, k >= 2); bool rnd = k & 1;
  if(!pd->initialize(F.f)) { fail("initialize", "initialize failed"); return false; }
  hiopFactAcceptorIC ic(pd.get(), nreq); hiopFactAcceptorInertiaFreeDWD dwd(pd.get(), nreq);
  auto story = [&](size_t n) { std::string s; for(size_t i = 0; i <= n; i++) s += std::string(i ? ", " : "") + ename[ev[i]]; return s; };
  auto bad = [&](size_t i, const std::string& w) { fail("perturbation", cat(cls[k], " nreq ", nreq, " acceptor ", viaacc, ": ", story(i), ": ", w)); return false; };
  int grow = 0;
  for(size_t i = 0; i < ev.size(); i++) {
    double w0 = r.w, c0 = r.c; bool want, got = true; int e = ev[i];
    if(e == 4) { if(!pd->initialize(F.f)) return bad(i, "initialize failed"); r = Ref(p, k >= 2); }
    if(e == 0 || e == 1 || e == 4) { double mu = e == 1 ? 1e-6 : 1e-1; pd->set_mu(mu); r.mu = mu; want = r.init(); got = pd->compute_initial_deltas(); grow = 0; }
    else if(!viaacc) { want = e == 2 ? r.singular() : r.wrong(); got = e == 2 ? pd->compute_perturb_singularity() : pd->compute_perturb_wrong_inertia(); }
    else {
      // a matrix the acceptor has to reject for this reason
      int neg = e == 2 ? -1 : nreq+1+(int)(i & 1); if(viaacc == 1 && e == 3 && nreq > 0 && (i & 1)) neg = nreq-1;
      hiopFactAcceptor& a = viaacc == 1 ? (hiopFactAcceptor&)ic : dwd; bool force = viaacc == 2 && e == 3;
      // an acceptable matrix changes nothing
      int a0 = a.requireReFactorization(*F.f, viaacc == 1 ? nreq : nreq+(int)(i%3), false); if(a0 != 0) return bad(i, cat("an acceptable matrix gives ", a0, " instead of 0"));
      if(e == 2 && nreq > 0) want = r.singular(); else want = r.wrong();   // without constraints a failed factorization means not positive definite
      int ar = a.requireReFactorization(*F.f, neg, force); got = ar == 1; if(ar != 1 && ar != -1) return bad(i, cat("a matrix to reject (", neg, " negative eigenvalues) gives ", ar));
    }
    if(got != want) return bad(i, cat("returned ", got, " instead of ", want));
    if(!got) { // the caller gives up on this system; another one follows
      if(i+1 < ev.size() && ev[i+1] >= 2 && ev[i+1] != 4) return true;
      if((e == 2 || e == 3) && !(r.dual ? (r.c > p.wmax || r.w > p.wmax) : r.w > p.wmax)) return bad(i, "gave up before the largest perturbation was exceeded");
      continue;
    }
    Deltas d = deltas(*pd);
    auto chk = [&](const V& v, double s, const char* nm) -> std::string {
      for(double x : v) { if(!(x >= 0)) return cat(nm, " is ", x);
        if(rnd ? !(x >= 0.9*s*(1-1e-12) && x <= s*(1+1e-12)) : !(std::fabs(x-s) <= 1e-13*s)) return cat(nm, " is ", x, " instead of ", rnd ? "0.9..1 times " : "", s); }
      return ""; };
    std::string s; for(auto& q : {chk(d.wx, r.w, "delta_wx"), chk(d.wd, r.w, "delta_wd"), chk(d.cc, r.c, "delta_cc"), chk(d.cd, r.c, "delta_cd")}) if(s.empty()) s = q;
    if(!s.empty()) return bad(i, s);
    if(!pd->check_consistency()) return bad(i, "check_consistency fails");
    // general facts, whatever the rules in detail
    if(r.w > p.wmax || (r.dual && r.c > p.wmax)) return bad(i, "a perturbation above the largest one is in use");
    if(e == 2 || e == 3) { if(++grow > 80) return bad(i, "no end of corrections"); if(!(r.w > w0 || r.c > c0)) return bad(i, "the perturbation did not grow"); }
    { std::unique_ptr<hiopVector> a(F.f->alloc_primal_vec()), b(F.f->alloc_dual_ineq_vec()), c(F.f->alloc_dual_eq_vec()), g(F.f->alloc_dual_ineq_vec()); pd->copy_from_curr_perturbations(*a, *b, *c, *g);
      if(get(a.get()) != d.wx || get(b.get()) != d.wd || get(c.get()) != d.cc || get(g.get()) != d.cd) return bad(i, "copy_from_curr_perturbations differs from the current ones"); }
    trans();
  }
  uint64_t h = mix(mix(mix(k, r.h), r.j), r.t); h = hd(hd(hd(hd(h, r.w), r.c), r.wl), r.cl); state(mix(h, r.deg)); trace();
  return true;
}

void mc_body()
{
  int depth = opt.thorough ? 10 : 8;
  Shape S; S.n = 2; S.me = 1; S.mi = 2; S.px = {1, 0}; S.pd = {1, 2};
  for(int q = 0; q < 5; q++) for(int k = 0; k < 4; k++) for(int a = 0; a < 4; a++) for(int b = 0; b < 5; b++) for(int c = 0; c < 5; c++) {
    // a: direct, inertia acceptor, inertia-free acceptor, acceptors of a problem without constraints
    int acc = a == 3 ? 1 : a, nreq = a == 3 ? 0 : 3, dep = depth - (a ? 1 : 0);
    if(!mc::begin(cat("events:", cls[k], ":p", q, ":a", a, ":", b, ",", c, ",*depth", dep))) continue;
    Fix F(S, "dense", optsof(prms[q])); std::vector<int> ev = {0, b, c}; ev.resize(dep, 0); std::vector<int> d(dep-3, 0), rx(dep-3, 5); bool ok = true;
    do { for(size_t i = 0; i < d.size(); i++) ev[3+i] = d[i]; ok = run(F, prms[q], k, ev, acc, nreq); if(ok && a == 3) ok = run(F, prms[q], k, ev, 2, 0); } while(ok && advance(d, rx));
    if(k == 0 && q == 0 && b == 2 && c == 3 && a == 0) sample(cat("new, singular, wrong inertia, then every sequence of ", dep-3, " more events"));
  }
  // long histories made of runs of equal corrections: r1 x i, new system, r2 x j, new system, r3 x l
  for(int q = 0; q < 5; q++) for(int k = 0; k < 4; k++) for(int a = 0; a < 3; a++) for(int e = 0; e < 8; e++) {
    if(!mc::begin(cat("runs:", cls[k], ":p", q, ":a", a, ":", e))) continue;
    Fix F(S, "dense", optsof(prms[q])); bool ok = true; int R = opt.thorough ? 24 : 13;
    for(int i = 0; i <= R && ok; i++) for(int j = 0; j <= R && ok; j++) for(int l = 0; l <= R && ok; l++) {
      std::vector<int> ev = {0}; for(int x = 0; x < i; x++) ev.push_back(2+(e&1)); ev.push_back((i+j)&1); for(int x = 0; x < j; x++) ev.push_back(2+(e>>1&1)); ev.push_back(l&1); for(int x = 0; x < l; x++) ev.push_back(2+(e>>2));
      ok = run(F, prms[q], k, ev, a, 3);
    }
  }
  // a long run of corrections ends
  for(int q = 0; q < 5; q++) for(int k = 0; k < 4; k++) for(int b = 0; b < 4; b++) {
    if(!mc::begin(cat("long:", cls[k], ":p", q, ":", b))) continue;
    Fix F(S, "dense", optsof(prms[q])); std::unique_ptr<hiopPDPerturbation> pd(make(k)); pd->initialize(F.f); pd->set_mu(0.1); bool ok = pd->compute_initial_deltas(); int n = 0;
    while(ok && n < 200) { bool sg = b == 0 || (b == 2 && n%2) || (b == 3 && n < 3); ok = sg ? pd->compute_perturb_singularity() : pd->compute_perturb_wrong_inertia(); n++; }
    if(ok) fail("endless", cat(cls[k], ": 200 corrections without reaching the largest perturbation")); trace(); trans(n);
  }
}
