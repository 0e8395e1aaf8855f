// Primal decomposition on the simulated MPI: every schedule up to a preemption bound, buffered and unbuffered sends,
// of the real master/evaluator engines, compared with the serial engine on an exactly representable problem.
#include "mc.hpp"
#include "simmpi/simmpi.hpp"
#include "hiopAlgPrimalDecomp.hpp"
#include "hiopInterfacePrimalDecomp.hpp"
#include "hiopVectorPar.hpp"
#include "hiopVectorIntSeq.hpp"
#include <map>
#include <memory>
using namespace hiop;
using namespace mc;

static double Q(double v) { double q = std::floor(v*64. + 0.5)/64.; if(q > 1e6) q = 1e6; if(q < -1e6) q = -1e6; return q; }

struct Log {               // what one execution did, as seen by the user's problem
  std::vector<std::string> master;                       // solve_master calls and the approximation they were given
  std::vector<std::vector<double>> xs;                   // master iterates
  struct Ev { int idx; bool grad; std::vector<double> x; int rank; int epoch; };
  std::vector<Ev> evals;                                  // recourse evaluations
  std::vector<int> status; std::vector<int> its; std::vector<double> sol; double obj = 0;
  std::string misuse;
};

class Prob : public hiopInterfacePriDecProblem {
public:
  Prob(int n, std::vector<int> xc, int S, Log* L, int rank, hiopSolveStatus last) : n_(n), xc_(xc), S_(S), L_(L), rank_(rank), last_(last), x_(n, 0.) {}
  hiopSolveStatus solve_master(hiopVector& x, const bool& include_r, const double& = 0, const double* = 0, const double* = 0, const char* = nullptr) override
  {
    double* xv = x.local_data(); std::ostringstream o; o << std::setprecision(17);
    if(!include_r) { for(int i = 0; i < n_; i++) xv[i] = T(i); obj_ = 0; o << "base"; }
    else {
      if(!ev_) { L_->misuse = "master asked to include recourse terms without an approximation"; return Solve_Success; }
      const double* g = ev_->get_rgrad()->local_data(); const double* h = ev_->get_rhess()->local_data(); const double* x0 = ev_->get_x0()->local_data();
      int nc = (int)xc_.size();
      for(int i = 0; i < n_; i++) xv[i] = T(i);
      for(int k = 0; k < nc; k++) { int i = xc_[k]; xv[i] = Q((2.*T(i) + h[k]*x0[k] - g[k])/(2. + h[k])); }
      obj_ = 0; for(int i = 0; i < n_; i++) obj_ += (xv[i]-T(i))*(xv[i]-T(i));
      double add = 0; std::vector<double> gg(n_, 0.25);
      ev_->eval_f(n_, xv, true, add); ev_->eval_grad(n_, xv, true, gg.data());
      // the approximation must be the second-order model around x0 with the averaged value and gradient
      double ref = ev_->get_rval(); std::vector<double> rg(n_, 0.25);
      for(int k = 0; k < nc; k++) { double d = xv[xc_[k]]-x0[k]; ref += d*g[k] + 0.5*h[k]*d*d; rg[xc_[k]] += g[k] + h[k]*d; }
      if(!mc::near(ref, add, 1e-12)) L_->misuse = cat("recourse model value ", add, " expected ", ref);
      for(int i = 0; i < n_; i++) if(!mc::near(rg[i], gg[i], 1e-12)) L_->misuse = cat("recourse model gradient[", i, "] ", gg[i], " expected ", rg[i]);
      obj_ += Q(add);
      o << "full rval=" << ev_->get_rval() << " g="; for(int k = 0; k < nc; k++) o << g[k] << ",";
      o << " h="; for(int k = 0; k < nc; k++) o << h[k] << ",";
      o << " x0="; for(int k = 0; k < nc; k++) o << x0[k] << ",";
    }
    x_.assign(xv, xv+n_);
    o << " -> x="; for(int i = 0; i < n_; i++) o << xv[i] << ",";
    L_->master.push_back(o.str()); L_->xs.push_back(x_);
    return include_r ? last_ : Solve_Success;
  }
  double T(int i) const { return 1. + 0.5*i; }
  // recourse term: 0.5*(i+1)*||x-c_i||^2 on a 1/64 grid
  bool eval_f_rterm(size_type idx, const int& n, const double* x, double& rval) override
  {
    note_call(idx, n, x, false);
    double s = 0; for(int k = 0; k < n; k++) { double d = x[k] - 0.25*(idx+k); s += 0.5*(idx+1)*d*d; }
    rval = Q(s) + 1.0/64; return true;
  }
  bool eval_grad_rterm(size_type idx, const int& n, double* x, hiopVector& grad) override
  {
    note_call(idx, n, x, true);
    double* g = grad.local_data(); for(int k = 0; k < n; k++) g[k] = Q((idx+1)*(x[k] - 0.25*(idx+k)));
    return true;
  }
  void note_call(size_type idx, int n, const double* x, bool grad)
  {
    if(n != (int)xc_.size()) L_->misuse = cat("recourse evaluation with n=", n);
    if(idx < 0 || idx >= S_) L_->misuse = cat("recourse index ", idx, " out of range");
    L_->evals.push_back({(int)idx, grad, std::vector<double>(x, x+n), rank_, (int)L_->xs.size()});
  }
  size_type get_num_rterms() const override { return S_; }
  size_type get_num_vars() const override { return n_; }
  void get_solution(double* x) const override { std::copy(x_.begin(), x_.end(), x); }
  double get_objective() override { return obj_; }
  bool set_recourse_approx_evaluator(const int n, RecourseApproxEvaluator* e) override
  { if(n != (int)xc_.size()) L_->misuse = "approximation of the wrong size"; ev_ = e; return true; }
private:
  int n_; std::vector<int> xc_; int S_; Log* L_; int rank_; hiopSolveStatus last_; std::vector<double> x_; double obj_ = 0;
  RecourseApproxEvaluator* ev_ = nullptr;
};

struct Conf { int ranks, S, n; std::vector<int> xc; bool full_ctor; bool local; bool rdv; int maxit; hiopSolveStatus last; int verb; };
static std::string name(const Conf& c)
{ return cat("ranks", c.ranks, "-S", c.S, "-n", c.n, "-xc", vstr(c.xc), c.full_ctor ? "all" : "", c.local ? "-accum" : "-direct", c.rdv ? "-unbuffered" : "-buffered", "-it", c.maxit, "-st", (int)c.last, "-v", c.verb); }

static void body(const Conf& c, Log& L, int rank)
{
  Prob p(c.n, c.xc, c.S, &L, rank, c.last);
  std::unique_ptr<hiopAlgPrimalDecomposition> s;
  if(c.full_ctor) s.reset(new hiopAlgPrimalDecomposition(&p, MPI_COMM_WORLD));
  else s.reset(new hiopAlgPrimalDecomposition(&p, (int)c.xc.size(), c.xc.data(), MPI_COMM_WORLD));
  s->set_max_iteration(c.maxit); s->set_verbosity(c.verb); s->set_tolerance(1e-12);
  s->set_local_accum(c.local ? "yes" : "no");
  int st = s->run();
  if((int)L.status.size() <= rank) { L.status.resize(rank+1, -999); L.its.resize(rank+1, -999); }
  L.status[rank] = st; L.its[rank] = s->getNumIterations();
  if(rank == 0) { hiopVectorPar x(c.n); s->getSolution(x); L.sol.assign(x.local_data(), x.local_data()+c.n); L.obj = s->getObjective(); }
}

static bool check(const Conf& c, const Log& ref, const Log& L, const sim::Outcome& o)
{
  if(!o.ok) { std::string k = o.error.substr(0, o.error.find(':')); std::string kk = k.find("no longer alive") != std::string::npos ? "dead-buffer" : k.find("deadlock") == 0 ? "deadlock" : k.find("livelock") == 0 ? "livelock" : "mpi-misuse";
    fail(kk, o.error); return false; }
  if(!L.misuse.empty()) { fail("user-contract", L.misuse); return false; }
  if(L.master != ref.master) {
    size_t i = 0; while(i < L.master.size() && i < ref.master.size() && L.master[i] == ref.master[i]) i++;
    fail("trajectory", cat("master step ", i, ": parallel '", i < L.master.size() ? L.master[i] : "(none)", "' serial '", i < ref.master.size() ? ref.master[i] : "(none)", "'")); return false;
  }
  if(L.sol != ref.sol || L.obj != ref.obj) { fail("solution", "solution or objective differs from the serial engine"); return false; }
  if(L.status[0] != ref.status[0]) { fail("status", cat("master status ", L.status[0], ", serial engine ", ref.status[0])); return false; }
  for(int r = 0; r < c.ranks; r++) if(L.its[r] != ref.its[0]) { fail("iterations", cat("rank ", r, " reports ", L.its[r], " iterations, serial ", ref.its[0])); return false; }
  // every outer iteration evaluates every term exactly once, value and gradient, at the broadcast point
  std::map<int, std::map<std::pair<int,bool>, int>> cnt;
  for(auto& e : L.evals) {
    cnt[e.epoch][{e.idx, e.grad}]++;
    for(size_t k = 0; k < e.x.size(); k++) if(e.x[k] != L.xs[e.epoch-1][c.xc[k]]) { fail("stale-point", cat("term ", e.idx, " evaluated on rank ", e.rank, " at a point that is not the current iterate")); return false; }
    if(c.ranks > 1 && e.rank == 0) { fail("roles", "the master rank evaluated a recourse term"); return false; }
  }
  for(size_t k = 1; k + 1 <= L.xs.size() && k <= (size_t)ref.its[0]+1; k++) for(int i = 0; i < c.S; i++) for(bool g : {false, true}) {
    int m = cnt[(int)k][{i, g}];
    if(m != 1) { fail("coverage", cat("outer iteration ", k-1, ": ", g ? "gradient" : "value", " of term ", i, " evaluated ", m, " times")); return false; }
  }
  return true;
}

// replays the choices of an execution and prints its steps
static void show_trace(const Conf& c, sim::Config& cfg, const Choices& ch)
{
  Choices again; Log L; for(auto& p : ch.pts) again.prefix.push_back(p.taken);
  sim::Outcome o = sim::run(cfg, [&](int r) { body(c, L, r); },
    [&](const std::vector<int>& en, bool) { return en[again.next((int)en.size())]; }, true);
  for(size_t i = 0; i < o.trace.size() && i < 200; i++) fprintf(stderr, "%s\n", o.trace[i].c_str());
}

void mc_body()
{
  std::vector<Conf> confs; bool th = opt.thorough;
  for(int ranks = 2; ranks <= 4; ranks++) for(int S = ranks-1; S <= (ranks == 4 ? 4 : th ? 5 : 4); S++) for(int mode = 0; mode < 4; mode++) {
    Conf c; c.ranks = ranks; c.S = S; c.local = mode & 1; c.rdv = mode & 2; c.last = Solve_Success; c.verb = 1;
    c.maxit = ranks == 2 ? 3 : 2; c.n = 3; c.xc = {2, 0}; c.full_ctor = false;
    confs.push_back(c);
    if(S == ranks) { c.full_ctor = true; c.xc = {0,1,2}; confs.push_back(c); }
    if(S == ranks) { c.full_ctor = false; c.xc = {2,0,1}; confs.push_back(c); }
    if(S == ranks) { c.full_ctor = false; c.xc = {1}; c.last = Infeasible_Problem; c.verb = 6; confs.push_back(c); }
  }
  for(auto& c : confs) {
    int parts = 8, bound = c.ranks == 2 ? (th ? 4 : 2) : c.ranks == 3 ? (th ? 3 : 2) : (th ? 2 : 1);
    for(int part = 0; part < parts; part++) {
      if(!begin(cat(name(c), "-pb", bound, "-part", part))) continue;
      Log ref; { Conf s = c; s.ranks = 1; body(s, ref, 0); }
      uint64_t runs = explore(bound, [&](Choices& ch) {
        Log L; sim::Config cfg; cfg.nranks = c.ranks; cfg.rendezvous = c.rdv; cfg.max_steps = 20000;
        sim::Outcome o = sim::run(cfg, [&](int r) { body(c, L, r); },
          [&](const std::vector<int>& en, bool) { return en[ch.next((int)en.size())]; });
        trans(o.steps); trace(); count("messages", o.messages);
        uint64_t h = hs(7, current().substr(0, current().find("-part"))); for(auto& e : L.evals) { h = mix(h, e.idx*64 + e.rank*4 + e.grad); } state(h);
        if(!o.ok && replaying()) show_trace(c, cfg, ch);
        return check(c, ref, L, o);
      }, 0, nullptr, part, parts);
      count("schedules", runs);
      if(part == 0) sample(cat(name(c), ": preemption bound ", bound, ", part 0 of ", parts, ": ", runs, " schedules"));
    }
  }
}
