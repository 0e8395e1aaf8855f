// The search directions solve the Newton system: every KKT linear-algebra class x shape x bound pattern x Hessian (definite,
// indefinite, singular, zero) x Jacobian (full rank, dependent, zero rows) x iterate x right-hand side, and sequences of updates
// on the same object.  Every equation of the full (unreduced) system is evaluated by plain arithmetic.
#include "kfix.hpp"
#ifdef HIOP_SPARSE
#include "hiopKKTLinSysSparse.hpp"
#include "hiopKKTLinSysSparseCondensed.hpp"
#include "hiopKKTLinSysSparseNormalEqn.hpp"
#endif
using namespace kf;

static Data data(const Shape& S, int hk, int jk, int ns)
{
  Data D; int n = S.n; D.H = V(n*n, 0.); D.Jc = V(S.me*n); D.Jd = V(S.mi*n);
  for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) {
    double v = 0;
    switch(hk) {
      case 0: v = i == j ? 2.+0.5*i : 0.25; break;
      case 1: v = i == j ? (i % 2 ? 1.5 : -1.+0.25*i) : 0.5; break;
      case 2: v = 0; break;
      case 3: v = i == j ? -3.-i : -0.5; break;
      case 4: v = 40.; break;                          // rank one
      case 5: v = i == j ? (i == n-1 ? -700. : 1e3) : 0; break;
    }
    if(i != j && (i < ns || j < ns)) v = 0;
    D.H[i*n+j] = v;
  }
  auto row = [&](int k, V& J, int r) { for(int i = 0; i < n; i++) {
    double v = 0;
    switch(jk) {
      case 0: v = (k == i ? 2. : 0.5-0.375*((k+2*i) % 3)); break;
      case 1: v = 1.-0.5*i; break;                     // all rows the same
      case 2: v = k == 0 ? 0. : (k == i ? 1. : 0.); break;  // a zero row, the rest unit rows
    }
    J[r*n+i] = v; } };
  for(int k = 0; k < S.me; k++) row(k, D.Jc, k);
  for(int k = 0; k < S.mi; k++) row(S.me+k, D.Jd, k);
  return D;
}
static Full iterate(const Shape& S, int ik)
{
  Full it = full(S); auto q = parts(it);
  for(int k = 0; k < 12; k++) for(size_t i = 0; i < q[k]->size(); i++) {
    double v = 1;
    if(ik == 1) v = k < 4 ? 0.5*(i+1)-k : 0.25+0.5*((k+i) % 4)+0.125*i;
    if(ik == 2) { bool act = (k+i) % 2 == 0; v = k < 4 ? 1. : k < 8 ? (act ? 1e-3 : 50.) : (act ? 1e-3 : 20.); if(k >= 8 && (k+i) % 3 == 0) v = 60.; }
    (*q[k])[i] = v;
  }
  mask(S, it); return it;
}
static Full rhs(const Shape& S, int rk)      // 0.. : generic ones; 10+j: unit vectors
{
  Full r = full(S); auto q = parts(r); int c = 0;
  for(int k = 0; k < 12; k++) for(size_t i = 0; i < q[k]->size(); i++) {
    double v = 0;
    if(rk == 0) v = 0.5+0.25*((3*k+5*i) % 7)-0.75*((k+i) % 2);
    else if(rk == 1) v = 0;
    else if(rk >= 10) { if(has(S, k, i)) v = (c++ == rk-10) ? 1. : 0.; }
    (*q[k])[i] = v;
  }
  mask(S, r); return r;
}
static int nunits(const Shape& S) { int c = 0; Full r = full(S); auto q = parts(r); for(int k = 0; k < 12; k++) for(size_t i = 0; i < q[k]->size(); i++) c += has(S, k, i); return c; }

static std::string bad;
#define require(ok, ...) do { if(!(ok) && bad.empty()) bad = __VA_ARGS__; } while(0)

struct Sys {
  Fix F; std::string cls; std::unique_ptr<hiopPDPerturbation> pd; std::unique_ptr<hiopFactAcceptor> fa; std::unique_ptr<hiopKKTLinSys> kkt;
  std::unique_ptr<hiopMatrix> Jc, Jd, H; std::unique_ptr<hiopIterate> it, dir; std::unique_ptr<hiopResidual> res; std::unique_ptr<hiopVector> grad;
  bool inertia_free, lowrank, condensed, normal; int updates = 0;
  static std::string form(const std::string& c) { return c.compare(0, 3, "mds") == 0 ? c : c == "spcondensed" ? "sparseineq" : c.compare(0, 2, "sp") == 0 ? "sparse" : "dense"; }
  Sys(const Shape& S, const std::string& c, bool ifree, const nlp::Opts& o, int pdk = 0) : F(S, form(c), o, {}, c == "spnormal"), cls(c), inertia_free(ifree), lowrank(c == "lowrank"), condensed(c == "spcondensed"), normal(c == "spnormal")
  {
    auto* f = F.f;
    if(lowrank) pd.reset(new hiopPDPerturbationNull()); else if(pdk == 0) pd.reset(new hiopPDPerturbationPrimalFirstScalar()); else if(pdk == 1) pd.reset(new hiopPDPerturbationPrimalFirstRand());
    else if(pdk == 2) pd.reset(new hiopPDPerturbationDualFirstScalar()); else pd.reset(new hiopPDPerturbationDualFirstRand());
    int want = condensed ? 0 : S.me+S.mi;
    pd->initialize(f); pd->set_mu(1e-2);
    if(ifree) fa.reset(new hiopFactAcceptorInertiaFreeDWD(pd.get(), want)); else fa.reset(new hiopFactAcceptorIC(pd.get(), want));
    if(c == "xycyd") kkt.reset(new hiopKKTLinSysDenseXYcYd(f)); else if(c == "xdycyd") kkt.reset(new hiopKKTLinSysDenseXDYcYd(f)); else if(lowrank) kkt.reset(new hiopKKTLinSysLowRank(f));
    
#ifdef HIOP_SPARSE
    else if(c == "spxycyd") kkt.reset(new hiopKKTLinSysCompressedSparseXYcYd(f)); else if(c == "spxdycyd") kkt.reset(new hiopKKTLinSysCompressedSparseXDYcYd(f));
    else if(c == "spcondensed") kkt.reset(new hiopKKTLinSysCondensedSparse(f)); else if(c == "spnormal") kkt.reset(new hiopKKTLinSysSparseNormalEqn(f));
#endif
    else kkt.reset(new hiopKKTLinSysCompressedMDSXYcYd(f));
    kkt->set_PD_perturb_calc(pd.get()); kkt->set_fact_acceptor(fa.get()); kkt->set_logbar_mu(1e-2);
    Jc.reset(f->alloc_Jac_c()); Jd.reset(f->alloc_Jac_d());
    if(c == "xycyd" || c == "xdycyd") H.reset(new hiopMatrixDenseRowMajor(S.n, S.n)); else H.reset(f->alloc_Hess_Lagr());
    it.reset(new hiopIterate(f)); dir.reset(new hiopIterate(f)); res.reset(new hiopResidual(f)); grad.reset(f->alloc_primal_vec()); grad->setToZero();
  }
  // the regularization of the system that is solved: the condensed one has no dual regularization
  Deltas solved() { Deltas e = deltas(*pd); if(condensed) for(double& v : e.cd) v = 0; return e; }
  void fillmats(const Data& D) { putJac(Jc.get(), D.Jc, F.S.me, F.S.n, F.ns); putJac(Jd.get(), D.Jd, F.S.mi, F.S.n, F.ns); if(!lowrank) putHess(H.get(), D.H, F.S.n, F.ns); }
  bool update(Data& D, Full& itv)
  {
    fillmats(D); load(*it, itv); updates++;
    if(lowrank) {   // as the algorithm does: the secant approximation is updated with the new iterate first
      V g(F.S.n); for(int i = 0; i < F.S.n; i++) g[i] = (1.5+i)*itv.x[i] + 0.25*updates; put(grad.get(), g);
      static_cast<hiopHessianLowRank*>(H.get())->update(*it, *grad, *Jc, *Jd);
    }
    bool r = kkt->update(it.get(), grad.get(), Jc.get(), Jd.get(), H.get());
#ifdef HIOP_DEEPCHECKS
    if(lowrank) { auto* h = static_cast<hiopHessianLowRank*>(H.get()); int n = F.S.n; std::unique_ptr<hiopVector> e(F.f->alloc_primal_vec()), y(F.f->alloc_primal_vec());
      for(int j = 0; j < n; j++) { e->setToZero(); raw(e.get())[j] = 1; y->setToZero(); h->timesVec_noLogBarrierTerm(0., *y, 1., *e); for(int i = 0; i < n; i++) D.H[i*n+j] = raw(y.get())[i]; } }
#endif
    return r;
  }
};

// checks one direction
static void direction(Sys& Y, const Data& D, Full itv, Full rv, const Full& dv, const std::string& ctx, double tol)
{
  const Shape& S = Y.F.S; Full size; Full Kd = apply(S, D, itv, Y.solved(), dv, size);
  Full d2 = dv; auto pd = parts(d2); auto pk = parts(Kd), pz = parts(size), pr = parts(rv);
  double mx = 0; for(int k = 0; k < 12; k++) for(size_t i = 0; i < pk[k]->size(); i++) mx = std::max(mx, std::max((*pz[k])[i], std::fabs((*pr[k])[i])));
  for(int k = 0; k < 12; k++) for(size_t i = 0; i < pk[k]->size(); i++) {
    double e = (*pk[k])[i]-(*pr[k])[i], s = (*pz[k])[i]+std::fabs((*pr[k])[i]);
    if(!has(S, k, i)) { require((*pd[k])[i] == 0, cat(ctx, ": the direction of the nonexistent ", pname(k), "[", i, "] is ", (*pd[k])[i])); continue; }
    require(std::fabs(e) <= tol*s + 1e-3*tol*mx, cat(ctx, ": equation ", pname(k), "[", i, "] of the Newton system is off by ", e, " (size of its terms ", s, "); direction ", str(dv)));
  }
  trans();
}

static void step(Sys& Y, int hk, int jk, int ik, const std::vector<int>& rks, const std::string& ctx, double mu)
{
  const Shape& S = Y.F.S;
  if(Y.lowrank && S.me && jk && !(jk == 1 && S.me == 1 && S.n != 3)) return;   // no dual regularization there: the equalities' Jacobian must have full row rank
  Data D = data(S, hk, jk, Y.F.ns); Full itv = iterate(S, ik);
  if(Y.normal) { for(int i = 0; i < S.n; i++) if(D.H[i*S.n+i] + (S.px[i] & 1 ? itv.zl[i]/itv.sxl[i] : 0) + (S.px[i] & 2 ? itv.zu[i]/itv.sxu[i] : 0) <= 0) return; }   // the normal equations are for convex problems
  bool first = Y.updates == 0;
  Y.pd->set_mu(mu); Y.kkt->set_logbar_mu(mu);
  bool ok = Y.update(D, itv);
  count("updates"); trace();
  if(!ok) { require(false, cat(ctx, ": update failed although a regularization exists")); return; }
  int N; Deltas e = deltas(*Y.pd);
  V all; for(auto* p : {&e.wx, &e.wd, &e.cc, &e.cd}) all.insert(all.end(), p->begin(), p->end());
  for(double v : all) require(v >= 0 && std::isfinite(v), cat(ctx, ": regularization ", v));
  double maxd = 0; for(double v : all) maxd = std::max(maxd, v);
  bool amb = false;
  if(!Y.lowrank) {
    V A = aug(S, D, itv, e, N); auto in = inertia(A, N); amb = in.amb; int want = S.me+S.mi;
    if(!Y.inertia_free) {
      if(in.amb) count("inertia too close to call"); else require(in.neg == want, cat(ctx, ": accepted a matrix with ", in.neg, " negative eigenvalues instead of ", want));
      Deltas z = e; for(auto* p : {&z.wx, &z.wd, &z.cc, &z.cd}) for(double& v : *p) v = 0;
      auto i0 = inertia(aug(S, D, itv, z, N), N, 1e-6);
      if(first && !i0.amb && i0.neg == want) {
        // the mixed formulation pivots on its sparse block, which has to be nonsingular by itself
        bool sp = true; for(int i = 0; i < Y.F.ns; i++) { double h = D.H[i*S.n+i] + (S.px[i] & 1 ? itv.zl[i]/itv.sxl[i] : 0) + (S.px[i] & 2 ? itv.zu[i]/itv.sxu[i] : 0); if(std::fabs(h) < 1e-13) sp = false; }
        if(sp) { require(maxd == 0, cat(ctx, ": regularized by ", maxd, " although the matrix has the right inertia")); count("no regularization needed"); }
      } else if(maxd > 0) count("regularized");
    } else if(in.amb) { count("inertia-free: nearly singular"); }
  }
  state(mix(mix(hv(hv(1, D.H), D.Jc), (uint64_t)ik), hv(hv(hv(hv(3, e.wx), e.wd), e.cc), e.cd)));
  double tol = 1e-8;
  for(int rk : rks) {
    Full rv = rhs(S, rk); load(*Y.res, rv);
    Full g = full(S, 7.5); load(*Y.dir, g);                       // stale contents
    bool sok = Y.kkt->computeDirections(Y.res.get(), Y.dir.get());
    require(sok, cat(ctx, ": computeDirections failed")); Full dv = save(*Y.dir);
    direction(Y, D, itv, rv, dv, cat(ctx, " rhs ", rk), tol);
    if(rk == 0) {
      auto same = [&](Full a, Full b, const char* what) { auto p = parts(a), q = parts(b); for(int k = 0; k < 12; k++) require(*p[k] == *q[k], cat(ctx, ": computeDirections changed the ", what)); };
      same(rv, save(*Y.res), "residual"); same(itv, save(*Y.it), "iterate");
      load(*Y.dir, g); require(Y.kkt->computeDirections(Y.res.get(), Y.dir.get()), cat(ctx, ": second computeDirections failed")); same(dv, save(*Y.dir), "answer on a second call");
      if(!Y.lowrank) {
        load(*Y.dir, g); require(Y.kkt->compute_directions_w_IR(Y.res.get(), Y.dir.get()), cat(ctx, ": compute_directions_w_IR failed"));
        if(!amb && !(Y.condensed && maxd > 0)) direction(Y, D, itv, rv, save(*Y.dir), cat(ctx, " refined"), tol);      // a singular system has no solution to converge to
        same(rv, save(*Y.res), "residual (refined)");
        // curvature test on this direction and, for unambiguous cases, on unit directions
        for(int c = -1; c < S.n+S.mi; c++) {
          Full t = full(S); if(c < 0) { t.x = dv.x; t.d = dv.d; } else if(c < S.n) t.x[c] = 2; else t.d[c-S.n] = -0.5;
          load(*Y.dir, t); double q = 0, az = 0, nn = 0; auto add = [&](double v) { q += v; az += std::fabs(v); };
          for(int i = 0; i < S.n; i++) { for(int j = 0; j < S.n; j++) add(t.x[i]*D.H[i*S.n+j]*t.x[j]); add(t.x[i]*t.x[i]*(e.wx[i] + (S.px[i] & 1 ? itv.zl[i]/itv.sxl[i] : 0) + (S.px[i] & 2 ? itv.zu[i]/itv.sxu[i] : 0))); nn += t.x[i]*t.x[i]; }
          for(int k = 0; k < S.mi; k++) { add(t.d[k]*t.d[k]*(e.wd[k] + (S.pd[k] & 1 ? itv.vl[k]/itv.sdl[k] : 0) + (S.pd[k] & 2 ? itv.vu[k]/itv.sdu[k] : 0))); nn += t.d[k]*t.d[k]; }
          double bound = nn*Y.F.f->options->GetNumeric("neg_curv_test_fact");
          if(std::fabs(q-bound) <= 1e-10*(az+bound)) continue;
          bool got = Y.kkt->test_direction(Y.dir.get(), Y.H.get());
          require(got == (q >= bound), cat(ctx, ": test_direction says ", got ? "fine" : "negative curvature", " for curvature ", q, " against ", bound)); count("curvature tests");
        }
        // <Kv,w> and the operators' entries
        hiopMatVecKKTFullOpr op(Y.kkt.get(), Y.it.get()); hiopIterate vi(Y.F.f), wi(Y.F.f); hiopResidual vr(Y.F.f), wr(Y.F.f);
        int NU = nunits(S); std::vector<Full> U, C;
        for(int a = 10; a < 10+NU; a++) { Full z; U.push_back(rhs(S, a)); C.push_back(apply(S, D, itv, e, U.back(), z)); }
        for(int a = 10; a < 10+NU; a++) {
          Full v = U[a-10]; load(vi, v); Full jn = full(S, -3.25); load(vr, jn);
          hiopVectorCompoundPD cv(&vi), cr(&vr); require(op.times_vec(cr, cv), "times_vec failed");
          Full ref = C[a-10], got = save(vr); auto p = parts(ref), q = parts(got);
          for(int k = 0; k < 12; k++) for(size_t i = 0; i < p[k]->size(); i++) require(near((*p[k])[i], (*q[k])[i], 1e-13), cat(ctx, ": KKT operator, entry (", pname(k), "[", i, "], unit ", a-10, ") is ", (*q[k])[i], " not ", (*p[k])[i]));
          // the transposed operator: column a of K' is row a of K
          load(wr, v); load(wi, jn); hiopVectorCompoundPD cw(&wr), co(&wi); require(op.trans_times_vec(co, cw), "trans_times_vec failed"); Full gt = save(wi); auto qt = parts(gt);
          for(int b = 10; b < 10+NU; b++) { Full& vb = U[b-10]; Full& col = C[b-10]; auto pc = parts(col); auto pv = parts(v), pb = parts(vb); double kab = 0, g2 = 0;
            for(int k = 0; k < 12; k++) for(size_t i = 0; i < pc[k]->size(); i++) { kab += (*pv[k])[i]*(*pc[k])[i]; g2 += (*pb[k])[i]*(*qt[k])[i]; }
            require(near(kab, g2, 1e-13), cat(ctx, ": transposed KKT operator, entry (", b-10, ",", a-10, ") is ", g2, " not ", kab)); }
        }
      }
    }
  }
  // inertia-free: regularize until the direction has positive curvature
  if(Y.inertia_free && !Y.lowrank) {
    Full rv = rhs(S, 0); load(*Y.res, rv); bool fine = false;
    for(int k = 0; k < 12 && !fine; k++) {
      require(Y.kkt->computeDirections(Y.res.get(), Y.dir.get()), cat(ctx, ": computeDirections failed (inertia free)"));
      direction(Y, D, itv, rv, save(*Y.dir), cat(ctx, " inertia free ", k), tol); if(!bad.empty()) return;
      fine = Y.kkt->test_direction(Y.dir.get(), Y.H.get());
      if(!fine) { double before = e.wx[0]; require(Y.kkt->factorize_inertia_free(), cat(ctx, ": factorize_inertia_free failed")); e = deltas(*Y.pd); require(e.wx[0] > before, cat(ctx, ": no more regularization after a negative curvature")); count("inertia-free corrections"); }
    }
    require(fine, cat(ctx, ": no acceptable direction after 12 corrections"));
  }
}

static void shape(const Shape& S, const std::string& cls, bool ifree, const std::string& tag, int pdk, bool small)
{
  auto emit = [&](const std::string& id) { if(!bad.empty()) { fail("kkt", bad); bad.clear(); } (void)id; };
  nlp::Opts o; if(ifree) o.push_back({"fact_acceptor", "inertia_free"}); if(pdk) o.push_back({"regularization_method", "randomized"});
  std::vector<int> rg = {0, 1}, ru = {0}; for(int a = 0; a < nunits(S); a++) ru.push_back(10+a);
  std::string pre = cat(tag, cls, ":", S.str());
  if(mc::begin(pre)) {
    for(int hk = 0; hk < 6; hk++) for(int jk = 0; jk < 3; jk++) for(int ik = 0; ik < 3; ik++) {
      if(small && !(hk+jk+ik <= 2 || (hk >= 3 && jk == ik))) continue;
      for(double mu : {1e-1, 1e-9}) { if(small && mu < 1e-2) continue;
        Sys Y(S, cls, ifree, o, pdk); step(Y, hk, jk, ik, (hk == 1 && jk == 0) || (hk == 0 && ik == 1) || opt.thorough ? ru : rg, cat("H", hk, " J", jk, " it", ik, " mu ", mu), mu); emit(pre); if(nfails() > 20) return; } }
  }
  if(!small && cls != "spnormal" && (opt.thorough || S.n == 1 || S.me+S.mi <= 2) && mc::begin(pre+":seq")) {
    static const int sit[5][3] = {{0,0,0},{1,0,1},{2,1,2},{3,2,1},{4,1,0}}; int len = opt.thorough ? 4 : 3; I d(len, 0), r(len, 5);
    do { Sys Y(S, cls, ifree, o, pdk); std::string c; double mu = 1e-1;
      for(int k = 0; k < len; k++) { const int* s = sit[d[k]]; c += cat(k ? " then " : "", "H", s[0], " J", s[1], " it", s[2]); step(Y, s[0], s[1], s[2], rg, c, mu); if(!bad.empty()) break; mu *= 0.1; }
      emit(pre); if(nfails() > 20) return; } while(advance(d, r));
  }
}

void mc_body()
{
  for(int n = 1; n <= (opt.thorough ? 4 : 3); n++) for(int me = 0; me <= std::min(2, n); me++) for(int mi = 0; mi <= (n == 4 ? 1 : 2); mi++) {
    I dx(n, 0), rx(n, 4);
    do {
      if(n >= 3) { int d = 0; for(int i = 0; i+1 < n; i++) d += dx[i] != dx[0]; if(d > (opt.thorough ? 1 : 0) ) continue; }
      I dd(mi, 0), rd(mi, 3);
      do {
        Shape S; S.n = n; S.me = me; S.mi = mi; S.px = dx; S.pd = dd; for(int& p : S.pd) p++;
        bool small = n >= 3 || (n == 2 && mi == 2 && dx[0] != dx[1]) ; if(opt.thorough && n < 4) small = false;
#ifdef HIOP_SPARSE
        for(const char* c : {"spxycyd", "spxdycyd", "spcondensed", "spnormal"}) {
          if(std::string(c) == "spcondensed" && me) continue;
          if(std::string(c) == "spnormal" && me+mi == 0) continue;
          shape(S, c, false, "", 0, small); shape(S, c, true, "ifree:", 0, true); shape(S, c, false, "rand:", 1, true);
          if(std::string(c) == "spnormal") { shape(S, c, false, "dual:", 2, small); shape(S, c, false, "dualrand:", 3, true); }
          if(nfails() > 20) return; }
        continue;
#endif
        for(const char* c : {"xycyd", "xdycyd", "lowrank"}) { shape(S, c, false, "", 0, small); if(std::string(c) != "lowrank") { shape(S, c, true, "ifree:", 0, true); shape(S, c, false, "rand:", 1, true); } if(nfails() > 20) return; }
        for(int ns = 0; ns <= n; ns++) { shape(S, cat("mds", ns), false, "", 0, small); shape(S, cat("mds", ns), true, "ifree:", 0, true); shape(S, cat("mds", ns), false, "rand:", 1, true); if(nfails() > 20) return; }
      } while(mi && advance(dd, rd));
    } while(advance(dx, rx));
  }
}
