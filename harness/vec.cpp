// Vectors: every operation x sizes x data over a small alphabet x selection patterns, serial and distributed over
// simulated MPI ranks (all partitions), against the element-wise definition.
#include "mc.hpp"
#include "simmpi/simmpi.hpp"
#include "hiopVectorPar.hpp"
#include "hiopVectorIntSeq.hpp"
#include "hiopVectorCompoundPD.hpp"
#include "hiopVectorIntCompoundPD.hpp"
#include <limits>
#include <memory>
#include <functional>
using namespace hiop;
using namespace mc;
typedef std::vector<double> V;

struct E { double t, x, z, p, q; };          // one element of this, two operands and two patterns
struct Arg { hiopVector *t, *x, *z, *p, *q; double a; };
static hiopVectorPar& par(hiopVector* v) { return dynamic_cast<hiopVectorPar&>(*v); }
enum { X = 1, Z = 2, PP = 4, QQ = 8, AL = 16 };
static const V GEN = {-2., -0.5, 0., 1., 3.}, POS = {0.25, 1., 3.}, NZ = {-2., -0.5, 1., 4.}, BIN = {0., 1.}, NNEG = {0., 0.25, 1., 4.};
static const V ALPHA = {0., 1., -1., 0.5, -2.};
struct Op {
  std::string name; int mask; V at, ax, az, al;
  std::function<void(Arg&)> run;               // elementwise: modifies t
  std::function<double(const E&, double)> ref;
  std::function<double(Arg&)> rrun;            // reduction: returns a number
  std::function<double(const std::vector<E>&, double)> rref;
  bool local = false, simple = false; /* simple: not offered by compound vectors */                         // reduction over the local part only
  double tol = 1e-14;
  std::function<bool(const E&, double)> pre;   // precondition on an element
};
static std::vector<Op> ops;
static Op& elem(const std::string& n, int mask, std::function<void(Arg&)> run, std::function<double(const E&, double)> ref)
{ Op o; o.name = n; o.mask = mask; o.at = GEN; o.ax = GEN; o.az = GEN; o.al = ALPHA; o.run = run; o.ref = ref; ops.push_back(o); return ops.back(); }
static Op& red(const std::string& n, int mask, bool local, std::function<double(Arg&)> run, std::function<double(const std::vector<E>&, double)> ref)
{ Op o; o.name = n; o.mask = mask; o.at = GEN; o.ax = GEN; o.az = GEN; o.al = ALPHA; o.rrun = run; o.rref = ref; o.local = local; ops.push_back(o); return ops.back(); }
typedef const std::vector<E>& VE;

static void table()
{
  const double MAXD = std::numeric_limits<double>::max(), NAN_ = std::nan(""), INF = HUGE_VAL;
  elem("setToZero", 0, [](Arg& a){ a.t->setToZero(); }, [](const E&, double){ return 0.; });
  elem("setToConstant", AL, [](Arg& a){ a.t->setToConstant(a.a); }, [](const E&, double al){ return al; });
  elem("setToConstant_w_patternSelect", PP|AL, [](Arg& a){ a.t->setToConstant_w_patternSelect(a.a, *a.p); }, [](const E& e, double al){ return e.p == 1 ? al : 0.; });
  elem("copyFrom", X, [](Arg& a){ a.t->copyFrom(*a.x); }, [](const E& e, double){ return e.x; });
  elem("copyFrom-array", X, [](Arg& a){ a.t->copyFrom(a.x->local_data_const()); }, [](const E& e, double){ return e.x; });
  elem("copyFrom-null", 0, [](Arg& a){ a.t->copyFrom((const double*)nullptr); }, [](const E& e, double){ return e.t; });
  elem("copyTo", X, [](Arg& a){ a.x->copyTo(a.t->local_data()); }, [](const E& e, double){ return e.x; });
  elem("copy_from_vectorpar", X, [](Arg& a){ a.t->copy_from_vectorpar(par(a.x)); }, [](const E& e, double){ return e.x; });
  elem("copy_to_vectorpar", X, [](Arg& a){ a.x->copy_to_vectorpar(par(a.t)); }, [](const E& e, double){ return e.x; });
  elem("copy_from_w_pattern", X|PP, [](Arg& a){ a.t->copy_from_w_pattern(*a.x, *a.p); }, [](const E& e, double){ return e.p == 1 ? e.x : e.t; });
  elem("new_copy", X, [](Arg& a){ std::unique_ptr<hiopVector> c(a.x->new_copy()); a.t->copyFrom(*c); }, [](const E& e, double){ return e.x; });
  elem("componentMult", X, [](Arg& a){ a.t->componentMult(*a.x); }, [](const E& e, double){ return e.t*e.x; });
  elem("componentDiv", X, [](Arg& a){ a.t->componentDiv(*a.x); }, [](const E& e, double){ return e.t/e.x; }).ax = NZ;
  elem("componentDiv_w_selectPattern", X|PP, [](Arg& a){ a.t->componentDiv_w_selectPattern(*a.x, *a.p); }, [](const E& e, double){ return e.p == 1 ? e.t/e.x : 0.; }).pre =
    [](const E& e, double) { return e.p == 0 || e.x != 0; };
  elem("component_min-const", AL, [](Arg& a){ a.t->component_min(a.a); }, [](const E& e, double al){ return std::min(e.t, al); });
  elem("component_min", X, [](Arg& a){ a.t->component_min(*a.x); }, [](const E& e, double){ return std::min(e.t, e.x); });
  elem("component_max-const", AL, [](Arg& a){ a.t->component_max(a.a); }, [](const E& e, double al){ return std::max(e.t, al); });
  elem("component_max", X, [](Arg& a){ a.t->component_max(*a.x); }, [](const E& e, double){ return std::max(e.t, e.x); });
  elem("component_abs", 0, [](Arg& a){ a.t->component_abs(); }, [](const E& e, double){ return std::fabs(e.t); });
  elem("component_sgn", 0, [](Arg& a){ a.t->component_sgn(); }, [](const E& e, double){ return e.t > 0 ? 1. : e.t < 0 ? -1. : 0.; });
  elem("component_sqrt", 0, [](Arg& a){ a.t->component_sqrt(); }, [](const E& e, double){ return std::sqrt(e.t); }).at = NNEG;
  elem("scale", AL, [](Arg& a){ a.t->scale(a.a); }, [](const E& e, double al){ return al*e.t; });
  elem("negate", 0, [](Arg& a){ a.t->negate(); }, [](const E& e, double){ return -e.t; });
  elem("invert", 0, [](Arg& a){ a.t->invert(); }, [](const E& e, double){ return 1./e.t; }).at = NZ;
  elem("axpy", X|AL, [](Arg& a){ a.t->axpy(a.a, *a.x); }, [](const E& e, double al){ return e.t + al*e.x; });
  elem("axpy_w_pattern", X|PP|AL, [](Arg& a){ a.t->axpy_w_pattern(a.a, *a.x, *a.p); }, [](const E& e, double al){ return e.p == 1 ? e.t + al*e.x : e.t; });
  elem("axzpy", X|Z|AL, [](Arg& a){ a.t->axzpy(a.a, *a.x, *a.z); }, [](const E& e, double al){ return e.t + al*e.x*e.z; });
  elem("axdzpy", X|Z|AL, [](Arg& a){ a.t->axdzpy(a.a, *a.x, *a.z); }, [](const E& e, double al){ return e.t + al*e.x/e.z; }).az = NZ;
  elem("axdzpy_w_pattern", X|Z|PP|AL, [](Arg& a){ a.t->axdzpy_w_pattern(a.a, *a.x, *a.z, *a.p); }, [](const E& e, double al){ return e.p == 1 ? e.t + al*e.x/e.z : e.t; }).pre =
    [](const E& e, double) { return e.p == 0 || e.z != 0; };
  elem("addConstant", AL, [](Arg& a){ a.t->addConstant(a.a); }, [](const E& e, double al){ return e.t + al; });
  elem("addConstant_w_patternSelect", PP|AL, [](Arg& a){ a.t->addConstant_w_patternSelect(a.a, *a.p); }, [](const E& e, double al){ return e.p == 1 ? e.t + al : e.t; });
  elem("addLogBarrierGrad", X|PP|AL, [](Arg& a){ a.t->addLogBarrierGrad(a.a, *a.x, *a.p); }, [](const E& e, double al){ return e.p == 1 ? e.t + al/e.x : e.t; }).pre =
    [](const E& e, double) { return e.p == 0 || e.x != 0; };
  elem("addLinearDampingTerm", PP|QQ|AL, [](Arg& a){ a.t->addLinearDampingTerm(*a.p, *a.q, a.a, 0.75); }, [](const E& e, double al){ return al*e.t + (e.p - e.q)*0.75; });
  elem("selectPattern", PP, [](Arg& a){ a.t->selectPattern(*a.p); }, [](const E& e, double){ return e.p == 1 ? e.t : 0.; });
  for(double kappa : {1e10, 4., 1.}) {
    Op& o = elem(cat("adjustDuals_plh-", kappa), X|PP|AL, [kappa](Arg& a){ a.t->adjustDuals_plh(*a.x, *a.p, a.a, kappa); },
      [kappa](const E& e, double mu){ if(e.p == 0) return e.t; double lo = mu/e.x/kappa, hi = mu/e.x*kappa; return std::max(std::min(e.t, hi), lo); });
    o.at = {1e-3, 0.05, 0.5, 1., 3.}; o.ax = {0.125, 1., 8.}; o.al = {0.0625, 1e-4, 2.};
  }
  // projection into the interior: kappa1=0.1, kappa2=0.25; x = lower bound, z = distance to the upper bound
  for(double k1 : {0.1, 1e-2}) {
    // p: has a lower bound x, q: has an upper bound z
    Op& o = elem(cat("projectIntoBounds_local-", k1), X|Z|PP|QQ, [k1](Arg& a){ if(!a.t->projectIntoBounds_local(*a.x, *a.p, *a.z, *a.q, k1, 0.25)) a.t->setToConstant(std::nan("")); },
      [k1](const E& e, double) {
        double pl = k1*std::max(1., std::fabs(e.x)), pu = k1*std::max(1., std::fabs(e.z));
        if(e.p == 1 && e.q == 1) { pl = std::min(pl, 0.25*(e.z-e.x)); pu = std::min(pu, 0.25*(e.z-e.x)); }
        double v = e.t;
        if(e.p == 1) v = std::max(v, e.x + pl);
        if(e.q == 1) v = std::min(v, e.z - pu);
        return v;
      });
    o.ax = {-2000., -20., -1., 0., 500.}; o.az = {-300., 0.0625, 1., 25., 4000.}; o.at = {-5000., -30., -1., 0., 0.03125, 1., 40., 600., 7000.}; o.al = {1.};
    o.pre = [](const E& e, double) { return (e.p == 1 || e.x == 0.) && (e.q == 1 || e.z == 1.) && !(e.p == 1 && e.q == 1 && e.x >= e.z); };
  }
  // reductions
  { Op& o = red("projectIntoBounds_local-possible", X|Z|PP|QQ, true, [](Arg& a){ std::unique_ptr<hiopVector> c(a.t->new_copy()); return (double)c->projectIntoBounds_local(*a.x, *a.p, *a.z, *a.q, 1e-2, 1e-2); },
      [](VE v, double){ for(auto& e : v) if(e.p == 1 && e.q == 1 && e.x > e.z) return 0.; return 1.; });
    o.at = {0., 4.}; o.ax = {-1., 0., 2.}; o.az = {-2., 1., 3.}; }
  red("twonorm", 0, false, [](Arg& a){ return a.t->twonorm(); }, [](VE v, double){ double s = 0; for(auto& e : v) s += e.t*e.t; return std::sqrt(s); }).tol = 4e-15;
  red("dotProductWith", X, false, [](Arg& a){ return a.t->dotProductWith(*a.x); }, [](VE v, double){ double s = 0; for(auto& e : v) s += e.t*e.x; return s; });
  red("infnorm", 0, false, [](Arg& a){ return a.t->infnorm(); }, [](VE v, double){ double s = 0; for(auto& e : v) s = std::max(s, std::fabs(e.t)); return s; });
  red("infnorm_local", 0, true, [](Arg& a){ return a.t->infnorm_local(); }, [](VE v, double){ double s = 0; for(auto& e : v) s = std::max(s, std::fabs(e.t)); return s; });
  red("onenorm", 0, false, [](Arg& a){ return a.t->onenorm(); }, [](VE v, double){ double s = 0; for(auto& e : v) s += std::fabs(e.t); return s; });
  red("onenorm_local", 0, true, [](Arg& a){ return a.t->onenorm_local(); }, [](VE v, double){ double s = 0; for(auto& e : v) s += std::fabs(e.t); return s; });
  red("sum_local", 0, true, [](Arg& a){ return a.t->sum_local(); }, [](VE v, double){ double s = 0; for(auto& e : v) s += e.t; return s; });
  red("min", 0, false, [](Arg& a){ return a.t->min(); }, [=](VE v, double){ double s = MAXD; for(auto& e : v) s = std::min(s, e.t); return s; });
  red("min_w_pattern", PP, false, [](Arg& a){ return a.t->min_w_pattern(*a.p); }, [=](VE v, double){ double s = MAXD; for(auto& e : v) if(e.p == 1) s = std::min(s, e.t); return s; });
  { Op& o = red("logBarrier_local", PP, true, [](Arg& a){ return a.t->logBarrier_local(*a.p); }, [](VE v, double){ long double s = 0; for(auto& e : v) if(e.p == 1) s += logl(e.t); return (double)s; });
    o.at = {0.25, 1e-8, 1., 3.}; }
  red("linearDampingTerm_local", PP|QQ, true, [](Arg& a){ return a.t->linearDampingTerm_local(*a.p, *a.q, 0.5, 0.25); }, [](VE v, double){ double s = 0; for(auto& e : v) if(e.p == 1 && e.q == 0) s += e.t; return s*0.125; });
  red("allPositive", 0, false, [](Arg& a){ return (double)(a.t->allPositive() != 0); }, [](VE v, double){ for(auto& e : v) if(e.t <= 0) return 0.; return 1.; });
  red("allPositive_w_patternSelect", PP, false, [](Arg& a){ return (double)(a.t->allPositive_w_patternSelect(*a.p) != 0); }, [](VE v, double){ for(auto& e : v) if(e.p == 1 && e.t <= 0) return 0.; return 1.; });
  red("matchesPattern", PP, false, [](Arg& a){ return (double)a.t->matchesPattern(*a.p); }, [](VE v, double){ for(auto& e : v) if(e.p == 0 && e.t != 0) return 0.; return 1.; });
  red("is_zero", 0, false, [](Arg& a){ return (double)a.t->is_zero(); }, [](VE v, double){ for(auto& e : v) if(e.t != 0) return 0.; return 1.; });
  red("is_equal", X, false, [](Arg& a){ return (double)a.t->is_equal(*a.x); }, [](VE v, double){ for(auto& e : v) if(e.t != e.x) return 0.; return 1.; });
  red("numOfElemsLessThan", AL, false, [](Arg& a){ return (double)a.t->numOfElemsLessThan(a.a); }, [](VE v, double al){ double s = 0; for(auto& e : v) s += e.t < al; return s; });
  red("numOfElemsAbsLessThan", AL, false, [](Arg& a){ return (double)a.t->numOfElemsAbsLessThan(a.a); }, [](VE v, double al){ double s = 0; for(auto& e : v) s += std::fabs(e.t) < al; return s; });
  { Op* o = &red("isnan_local", 0, true, [](Arg& a){ return (double)a.t->isnan_local(); }, [](VE v, double){ for(auto& e : v) if(std::isnan(e.t)) return 1.; return 0.; }); o->at = {0., 1., NAN_, INF, -INF};
    o = &red("isinf_local", 0, true, [](Arg& a){ return (double)a.t->isinf_local(); }, [](VE v, double){ for(auto& e : v) if(std::isinf(e.t)) return 1.; return 0.; }); o->at = {0., 1., NAN_, INF, -INF};
    o = &red("isfinite_local", 0, true, [](Arg& a){ return (double)a.t->isfinite_local(); }, [](VE v, double){ for(auto& e : v) if(!std::isfinite(e.t)) return 0.; return 1.; }); o->at = {0., 1., NAN_, INF, -INF}; }
  { Op* o = &red("fractionToTheBdry_local", X|AL, true, [](Arg& a){ return a.t->fractionToTheBdry_local(*a.x, a.a); },
      [](VE v, double tau){ double al = 1; for(auto& e : v) if(e.x < 0) al = std::min(al, tau*e.t/-e.x); return al; }); o->at = {0.25, 1., 4.}; o->al = {0.5, 0.99};
    o = &red("fractionToTheBdry_w_pattern_local", X|PP|AL, true, [](Arg& a){ return a.t->fractionToTheBdry_w_pattern_local(*a.x, a.a, *a.p); },
      [](VE v, double tau){ double al = 1; for(auto& e : v) if(e.p == 1 && e.x < 0) al = std::min(al, tau*e.t/-e.x); return al; }); o->at = {0., 0.25, 1., 4.}; o->al = {0.5, 0.99};
    o->pre = [](const E& e, double) { return e.p == 0 || e.t > 0; }; }
}

static const double MARK = 777.;

// one configuration: an operation on vectors of global size n partitioned as 'part' (part.size()-1 ranks)
struct Dist { int n; std::vector<index_type> part; };
static std::string pname(const Dist& d) { std::string s = cat("n", d.n, "-part"); for(size_t r = 0; r+1 < d.part.size(); r++) s += cat(r ? "+" : "", d.part[r+1]-d.part[r]); return s; }

static std::vector<int> radices(const Op& o, int n)
{
  std::vector<int> r;
  for(int i = 0; i < n; i++) {
    r.push_back((int)o.at.size());
    if(o.mask & X) r.push_back((int)o.ax.size());
    if(o.mask & Z) r.push_back((int)o.az.size());
    if(o.mask & PP) r.push_back(2);
    if(o.mask & QQ) r.push_back(2);
  }
  return r;
}
static double nconf(const Op& o, int n) { double c = (o.mask & AL) ? o.al.size() : 1; for(int x : radices(o, n)) c *= x; return c; }
static std::vector<E> decode(const Op& o, int n, const std::vector<int>& d)
{
  std::vector<E> v(n); size_t k = 0;
  for(int i = 0; i < n; i++) {
    v[i] = {o.at[d[k]], 1., 1., 1., 1.}; k++;
    if(o.mask & X) v[i].x = o.ax[d[k++]];
    if(o.mask & Z) v[i].z = o.az[d[k++]];
    if(o.mask & PP) v[i].p = d[k++];
    if(o.mask & QQ) v[i].q = d[k++];
  }
  return v;
}
static std::string show(const std::vector<E>& v) { std::string s; for(auto& e : v) s += cat("(", e.t, ",", e.x, ",", e.z, "|", e.p, ",", e.q, ")"); return s; }

struct Work {                       // the vectors of one rank, reused over the data
  std::vector<std::unique_ptr<hiopVector>> own;
  hiopVector* v[5]; std::vector<double*> e[5];       // the vectors t,x,z,p,q and their local elements
  Work(const Dist& d, MPI_Comm c, int kind = 0)
  {
    for(int k = 0; k < 5; k++) {
      if(!kind) {
        hiopVectorPar* w = new hiopVectorPar(d.n, d.part.size() > 1 ? (index_type*)d.part.data() : nullptr, c);
        own.emplace_back(v[k] = w); for(int i = 0; i < w->get_local_size(); i++) e[k].push_back(w->local_data()+i);
      } else {                     // compound: part.size()-1 parts; 1 = parts given one by one (owned), 2 = the clone of such a vector
        hiopVectorCompoundPD* w = new hiopVectorCompoundPD(true); own.emplace_back(w);
        for(size_t r = 0; r+1 < d.part.size(); r++) w->addVector(new hiopVectorPar(d.part[r+1]-d.part[r]));
        if(kind == 2) { hiopVector* cl = w->alloc_clone(); own.emplace_back(cl); w = dynamic_cast<hiopVectorCompoundPD*>(cl); }
        v[k] = w;
        if(w->get_num_parts()+1 != (int)d.part.size()) fail("parts", cat("a compound vector of ", d.part.size()-1, " parts says it has ", w->get_num_parts()));
        else for(int r = 0; r < w->get_num_parts(); r++) { hiopVectorPar& q = par(&w->getVector(r)); for(int i = 0; i < q.get_local_size(); i++) e[k].push_back(q.local_data()+i); }
      }
    }
  }
};
static bool one(const Op& o, const Dist& d, int rank, Work& w, const std::vector<E>& v, double al, std::string& err, bool comp = false)
{
  bool dist = d.part.size() > 1 && !comp;
  int lo = dist ? d.part[rank] : 0, hi = dist ? d.part[rank+1] : d.n;
  if(w.v[0]->get_local_size() != hi-lo || w.v[0]->get_size() != d.n) { err = "wrong local or global size"; return false; }
  for(int k = 0; k < 5; k++) if((int)w.e[k].size() != hi-lo) { err = "wrong number of elements"; return false; }
  std::vector<E> loc(v.begin()+lo, v.begin()+hi);
  for(int k = 0; k < hi-lo; k++) { *w.e[0][k] = loc[k].t; *w.e[1][k] = loc[k].x; *w.e[2][k] = loc[k].z; *w.e[3][k] = loc[k].p; *w.e[4][k] = loc[k].q; }
  Arg a{w.v[0], w.v[1], w.v[2], w.v[3], w.v[4], al};
  if(o.run) {
    o.run(a);
    for(int k = 0; k < hi-lo; k++) {
      double r = o.ref(loc[k], al), g = *w.e[0][k];
      if(!near(r, g, o.tol)) { err = cat("element ", lo+k, " is ", g, ", expected ", r); return false; }
    }
  } else {
    double g = o.rrun(a), r = o.rref(o.local ? loc : v, al);
    if(!near(r, g, o.tol)) { err = cat("rank ", rank, " returned ", g, ", expected ", r); return false; }
    for(int k = 0; k < hi-lo; k++) { double a = *w.e[0][k], b = loc[k].t; if(!(a == b || (std::isnan(a) && std::isnan(b)))) { err = cat("the operation changed the vector it reads (element ", lo+k, ")"); return false; } }
  }
  for(int k = 0; k < hi-lo; k++) if(*w.e[1][k] != loc[k].x || *w.e[2][k] != loc[k].z || *w.e[3][k] != loc[k].p || *w.e[4][k] != loc[k].q)
    { err = cat("the operation changed an operand (element ", lo+k, ")"); return false; }
  return true;
}
// all data for one op and one partition; all ranks walk through the same data
static void sweep(const Op& o, const Dist& d, int comp = 0)
{
  int P = comp ? 1 : std::max(1, (int)d.part.size()-1); uint64_t N = 0; std::string err, where; bool bad = false;
  auto body = [&](int rank) {
    Work w(d, MPI_COMM_WORLD, comp);
    for(double al : (o.mask & AL) ? o.al : V{1.}) {
      std::vector<int> r = radices(o, d.n), dig(r.size(), 0);
      do {
        std::vector<E> v = decode(o, d.n, dig);
        bool ok = true; if(o.pre) for(auto& e : v) ok = ok && o.pre(e, al);
        if(!ok) continue;
        std::string e;
        if(!one(o, d, rank, w, v, al, e, comp)) { if(!bad) { bad = true; err = e; where = cat("alpha=", al, " data (t,x,z|p,q)=", show(v)); } }
        if(rank == 0) N++;
      } while(!dig.empty() && advance(dig, r));
    }
  };
  if(P == 1) body(0);
  else {
    sim::Config c; c.nranks = P; c.max_steps = 2000000000L;
    sim::Outcome out = sim::run(c, body, [](const std::vector<int>& en, bool) { return en[0]; });
    if(!out.ok) fail("mpi", cat(o.name, ": ", out.error));
  }
  if(bad) fail("operation", cat(o.name, ": ", err, "; ", where));
  trans(N); trace(N); state(hs(mix(d.n, P), current()));
}
// all partitions of n into P consecutive parts
static void partitions(int n, int P, const std::function<void(const std::vector<index_type>&)>& f)
{
  std::vector<index_type> p(P+1, 0); p[P] = n;
  std::function<void(int)> rec = [&](int r) { if(r == P) { f(p); return; } for(int b = p[r-1]; b <= n; b++) { p[r] = b; rec(r+1); } };
  if(P == 0) f(p); else rec(1);
}

// ---- copies with positions, maps and patterns on vectors that are not distributed
static V seq(int n, double b) { V v(n); for(int i = 0; i < n; i++) v[i] = b + i; return v; }
static void put(hiopVectorPar& v, const V& d) { for(size_t i = 0; i < d.size(); i++) v.local_data()[i] = d[i]; }
static bool same(hiopVectorPar& v, const V& d) { for(size_t i = 0; i < d.size(); i++) if(v.local_data()[i] != d[i]) return false; return true; }
static V got(hiopVectorPar& v) { return V(v.local_data(), v.local_data()+v.get_local_size()); }
#define EXPECT(what, v, e) do { trans(); trace(); if(!same(v, e)) { fail("copy", cat(what, ": got ", vstr(got(v)), ", expected ", vstr(e))); return; } } while(0)

static void copies(int n, int m)
{
  V A = seq(n, 10), B = seq(m, 20);
  // from/to a position
  for(int st = 0; st + m <= n; st++) {
    { hiopVectorPar t(n), s(m); put(t, A); put(s, B); t.copyFromStarting(st, s); V e = A; for(int i = 0; i < m; i++) e[st+i] = B[i]; EXPECT(cat("copyFromStarting(", st, ",vec)"), t, e); EXPECT("source", s, B); }
    for(int k = 0; k <= m; k++) { hiopVectorPar t(n); put(t, A); t.copyFromStarting(st, B.data(), k); V e = A; for(int i = 0; i < k; i++) e[st+i] = B[i]; EXPECT(cat("copyFromStarting(", st, ",array,", k, ")"), t, e); }
    { hiopVectorPar t(n), s(m); put(t, A); put(s, B); t.copyToStarting(st, s); V e(A.begin()+st, A.begin()+st+m); EXPECT(cat("copyToStarting(", st, ",vec)"), s, e); EXPECT("source", t, A); }
    { hiopVectorPar t(n), s(m); put(t, A); put(s, B); s.copyToStarting(t, st); V e = A; for(int i = 0; i < m; i++) e[st+i] = B[i]; EXPECT(cat("copyToStarting(vec,", st, ")"), t, e); EXPECT("source", s, B); }
    { hiopVectorPar s(m); put(s, B); s.copy_from_starting_at(A.data(), st, m); V e(A.begin()+st, A.begin()+st+m); EXPECT(cat("copy_from_starting_at(array,", st, ",", m, ")"), s, e); }
    for(int k = 0; k < m; k++) { hiopVectorPar s(m); put(s, B); s.copy_from_starting_at(A.data(), st, k); V e = B; for(int i = 0; i < k; i++) e[i] = A[st+i]; EXPECT(cat("copy_from_starting_at(array,", st, ",", k, ")"), s, e); }
  }
  for(int sd = 0; sd <= n; sd++) for(int ss = 0; ss <= m; ss++) {
    if((sd < n || n == 0) && (ss < m || m == 0 || ss == m)) if(n-sd <= m-ss || m-ss == 0) {
      hiopVectorPar t(n), s(m); put(t, A); put(s, B); t.startingAtCopyFromStartingAt(sd, s, ss);
      V e = A; if(m-ss > 0) for(int i = sd; i < n; i++) e[i] = B[ss+i-sd]; EXPECT(cat("startingAtCopyFromStartingAt(", sd, ",", ss, ")"), t, e);
    }
    // 'this' is t (size n): copy from position sd of t to position ss of s
    for(int k = -1; k <= std::min(n-sd, m-ss); k++) {
      if(k > 0 && (sd == n || ss == m)) continue;
      int c = k < 0 ? std::min(n-sd, m-ss) : k;
      { hiopVectorPar t(n), s(m); put(t, A); put(s, B); t.startingAtCopyToStartingAt(sd, s, ss, k); V e = B; for(int i = 0; i < c; i++) e[ss+i] = A[sd+i]; EXPECT(cat("startingAtCopyToStartingAt(", sd, ",", ss, ",", k, ")"), s, e); EXPECT("source", t, A); }
      for(int pat = 0; pat < (1 << m); pat++) {
        hiopVectorPar t(n), s(m), ix(m); put(t, A); put(s, B); V e = B; int f = 0;
        for(int i = 0; i < m; i++) ix.local_data()[i] = (pat >> i) & 1;
        for(int i = ss; i < m && f < c; i++) if((pat >> i) & 1) e[i] = A[sd+f++];
        t.startingAtCopyToStartingAt_w_pattern(sd, s, ss, ix, k); EXPECT(cat("startingAtCopyToStartingAt_w_pattern(", sd, ",", ss, ",pattern ", pat, ",", k, ")"), s, e);
      }
    }
  }
  // packing the selected elements
  for(int pat = 0; pat < (1 << n); pat++) for(int st = 0; st + __builtin_popcount(pat) <= m; st++) {
    hiopVectorPar t(n), s(m), ix(n); put(t, A); put(s, B); V e = B; int f = 0;
    for(int i = 0; i < n; i++) { ix.local_data()[i] = (pat >> i) & 1; if((pat >> i) & 1) e[st+f++] = A[i]; }
    t.copyToStartingAt_w_pattern(s, st, ix); EXPECT(cat("copyToStartingAt_w_pattern(", st, ",pattern ", pat, ")"), s, e);
  }
  // two interleaved vectors (n and m elements), every interleaving
  for(int mask = 0; mask < (1 << (n+m)); mask++) if(__builtin_popcount(mask) == n) for(int rev = 0; rev < 2; rev++) {
    hiopVectorIntSeq cm(n), dm(m); int a = 0, b = 0; V all(n+m);
    for(int i = 0; i < n+m; i++) { int pos = rev ? n+m-1-i : i; if((mask >> i) & 1) { cm.local_data()[a] = pos; all[pos] = A[a++]; } else { dm.local_data()[b] = pos; all[pos] = B[b++]; } }
    hiopVectorPar t(n+m), c(n), d(m); put(c, A); put(d, B); t.setToConstant(MARK);
    t.copy_from_two_vec_w_pattern(c, cm, d, dm); EXPECT("copy_from_two_vec_w_pattern", t, all);
    c.setToConstant(MARK); d.setToConstant(MARK);
    t.copy_to_two_vec_w_pattern(c, cm, d, dm); EXPECT("copy_to_two_vec_w_pattern", c, A); EXPECT("copy_to_two_vec_w_pattern", d, B);
  }
  // index sets: every map of n positions into m
  if(m > 0) {
    std::vector<int> dig(n, 0), rad(n, m);
    do {
      hiopVectorIntSeq ix(n); V e(n), e2 = B; for(int i = 0; i < n; i++) { ix.local_data()[i] = dig[i]; e[i] = B[dig[i]]; e2[dig[i]] += -0.5*A[i]; }
      hiopVectorPar t(n), s(m); put(t, A); put(s, B);
      t.copy_from_indexes(s, ix); EXPECT("copy_from_indexes", t, e);
      t.setToConstant(MARK); t.copy_from_indexes(B.data(), ix); EXPECT("copy_from_indexes(array)", t, e);
      if(n <= m) { put(t, A); s.axpy(-0.5, t, ix); EXPECT("axpy at indexes", s, e2); }
    } while(!dig.empty() && advance(dig, rad));
  }
  // arrays of nonlinearity types
  { hiopVectorPar t(n); typedef hiopInterfaceBase::NonlinearityType NT;
    for(int b = 0; b <= n; b++) for(int e = b; e <= n; e++) for(int ss = 0; ss + (e-b) <= m; ss++) {
      std::vector<NT> d(n, hiopInterfaceBase::hiopLinear), s(m); for(int i = 0; i < m; i++) s[i] = i % 2 ? hiopInterfaceBase::hiopNonlinear : hiopInterfaceBase::hiopQuadratic;
      std::vector<NT> r = d; for(int i = b; i < e; i++) r[i] = s[ss+i-b];
      t.set_array_from_to(d.data(), b, e, s.data(), ss); trans(); trace(); if(d != r) { fail("copy", cat("set_array_from_to(", b, ",", e, ",array,", ss, ")")); return; }
      d.assign(n, hiopInterfaceBase::hiopLinear); r = d; for(int i = b; i < e; i++) r[i] = hiopInterfaceBase::hiopQuadratic;
      t.set_array_from_to(d.data(), b, e, hiopInterfaceBase::hiopQuadratic); trans(); trace(); if(d != r) { fail("copy", cat("set_array_from_to(", b, ",", e, ",constant)")); return; }
    } }
  // integer vectors
  { hiopVectorIntSeq v(n), w(n);
    for(int i0 = -2; i0 <= 2; i0++) for(int di = -2; di <= 2; di++) {
      v.linspace(i0, di); trans(); trace(); for(int i = 0; i < n; i++) if(v.local_data()[i] != i0 + i*di) { fail("int", cat("linspace(", i0, ",", di, ")")); return; }
      w.copy_from_vectorseq(v); for(int i = 0; i < n; i++) if(w.local_data()[i] != i0 + i*di) { fail("int", "copy_from_vectorseq"); return; }
      w.set_to_constant(di); for(int i = 0; i < n; i++) if(w.local_data()[i] != di) { fail("int", "set_to_constant"); return; }
      v.copy_to_vectorseq(w); for(int i = 0; i < n; i++) if(w.local_data()[i] != i0 + i*di) { fail("int", "copy_to_vectorseq"); return; }
      std::vector<index_type> raw(n, 5 + i0); w.copy_from(raw.data()); for(int i = 0; i < n; i++) if(w.local_data()[i] != 5 + i0) { fail("int", "copy_from"); return; }
      w.set_to_zero(); for(int i = 0; i < n; i++) if(w.local_data()[i] != 0) { fail("int", "set_to_zero"); return; }
    } }
  state(mix(n, m+100));
}
// distributed blocks, as the elastic (feasibility restoration) problems lay them out: a distributed block followed by
// replicated blocks that live on the last rank
static void dist_blocks(const Dist& d, int m)
{
  int P = (int)d.part.size()-1; std::string err;
  auto body = [&](int rank) {
    std::vector<index_type> big = d.part; big[P] += m;
    Dist D{d.n+m, big};
    hiopVectorPar x(d.n, (index_type*)d.part.data(), MPI_COMM_WORLD), w(D.n, big.data(), MPI_COMM_WORLD), c(m);
    int lo = d.part[rank], ln = d.part[rank+1]-lo, wl = big[rank+1]-big[rank];
    auto ex = [&](const char* what, hiopVectorPar& v, const V& e) { for(size_t i = 0; i < e.size(); i++) if(v.local_data()[i] != e[i]) { if(err.empty()) err = cat(what, " on rank ", rank, ": got ", vstr(got(v)), ", expected ", vstr(e)); } };
    V X0 = seq(d.n, 10), C0 = seq(m, 100);
    for(int i = 0; i < ln; i++) x.local_data()[i] = X0[lo+i];
    put(c, C0); w.setToConstant(MARK);
    x.copyToStarting(w, 0);
    V e(wl, MARK); for(int i = 0; i < ln; i++) e[i] = X0[lo+i];
    ex("copyToStarting(distributed,0)", w, e);
    c.copyToStarting(w, d.n);
    if(rank == P-1) for(int i = 0; i < m; i++) e[ln+i] = C0[i];
    ex("copyToStarting(replicated,n)", w, e);
    // back: local arrays of w into x
    x.setToConstant(MARK); x.copy_from_starting_at(w.local_data(), 0, d.n);
    V l(ln); for(int i = 0; i < ln; i++) l[i] = X0[lo+i];
    ex("copy_from_starting_at(local array, 0, n)", x, l);
    if(rank == P-1) { c.setToConstant(MARK); c.copy_from_starting_at(w.local_data() + (d.n - lo), 0, m); ex("copy_from_starting_at(replicated)", c, C0); }
  };
  sim::Config c; c.nranks = P; sim::Outcome out = sim::run(c, body, [](const std::vector<int>& en, bool) { return en[0]; });
  trans(5); trace(5);
  if(!out.ok) fail("mpi", out.error);
  if(!err.empty()) fail("copy", err);
}

// gathering and adding at index sets, part by part: every map of the positions of each part into a source part of the
// same size plus one
static void compound_indexes(const Dist& d)
{
  int P = (int)d.part.size()-1; std::vector<int> rad, dig;
  for(int r = 0; r < P; r++) for(int i = d.part[r]; i < d.part[r+1]; i++) rad.push_back(d.part[r+1]-d.part[r]+1);
  dig.assign(rad.size(), 0);
  do {
    hiopVectorCompoundPD t(true), s(true); hiopVectorIntCompoundPD ix; V e, e2; int q = 0; double b = 20;
    for(int r = 0; r < P; r++) {
      int len = d.part[r+1]-d.part[r]; hiopVectorPar *a = new hiopVectorPar(len), *c = new hiopVectorPar(len+1); hiopVectorIntSeq* x = new hiopVectorIntSeq(len);
      size_t o2 = e2.size(); for(int i = 0; i <= len; i++) { c->local_data()[i] = b+i; e2.push_back(b+i); }
      for(int i = 0; i < len; i++, q++) { a->local_data()[i] = 1+q; x->local_data()[i] = dig[q]; e.push_back(b+dig[q]); e2[o2+dig[q]] += -0.5*(1+q); }
      t.addVector(a); s.addVector(c); ix.addVector(x); b += 10;
    }
    auto all = [&](hiopVectorCompoundPD& w) { V g; for(int r = 0; r < w.get_num_parts(); r++) { V h = got(par(&w.getVector(r))); g.insert(g.end(), h.begin(), h.end()); } return g; };
    trans(); trace();
    if(ix.get_num_parts() != P || t.get_num_parts() != P || ix.get_local_size() != d.n || t.get_size() != d.n) { fail("parts", "wrong number of parts or elements"); return; }
    s.axpy(-0.5, t, ix); if(all(s) != e2) { fail("copy", cat("axpy at indexes: got ", vstr(all(s)), ", expected ", vstr(e2))); return; }
    b = 20; for(int r = 0; r < P; r++) { hiopVectorPar& c = par(&s.getVector(r)); for(int i = 0; i < c.get_local_size(); i++) c.local_data()[i] = b+i; b += 10; }
    t.copy_from_indexes(s, ix); if(all(t) != e) { fail("copy", cat("copy_from_indexes: got ", vstr(all(t)), ", expected ", vstr(e))); return; }
    ix.set_to_constant(3); for(int r = 0; r < P; r++) for(int i = 0; i < ix.getVector(r).get_local_size(); i++) if(ix.getVector(r).local_data()[i] != 3) { fail("int", "set_to_constant"); return; }
    ix.set_to_zero(); for(int r = 0; r < P; r++) for(int i = 0; i < ix.getVector(r).get_local_size(); i++) if(ix.getVector(r).local_data()[i] != 0) { fail("int", "set_to_zero"); return; }
  } while(!dig.empty() && advance(dig, rad));
  state(hs(mix(d.n, P), current()));
}

void mc_body()
{
  table(); for(auto& o : ops) o.simple = o.name == "copyFrom-array" || o.name == "copyFrom-null" || o.name == "copyTo" || o.name == "copy_from_vectorpar" || o.name == "copy_to_vectorpar" || o.name == "is_equal";
  bool th = opt.thorough; double lim = th ? 1e8 : 8e6, dlim = th ? 1e7 : 1e6; int nmax = th ? 5 : 4;
  for(auto& o : ops) {
    for(int n = 0; n <= nmax; n++) {
      if(n > 1 && nconf(o, n) > lim) continue;
      if(!begin(cat("op:", o.name, "-n", n))) continue;
      sweep(o, Dist{n, {}});
      if(n == 2) sample(cat(o.name, ": all ", (uint64_t)nconf(o, n), " data combinations for vectors of 2 elements"));
    }
    // longer vectors: each element in turn takes every value of its alphabet while the others keep a fixed base value
    for(int n : {5, 8, 9, 16, 17, 33}) {
      if(!begin(cat("op:", o.name, "-long", n))) continue;
      Dist d{n, {}}; Work w(d, MPI_COMM_WORLD); std::vector<int> r1 = radices(o, 1);
      for(double al : (o.mask & AL) ? o.al : V{1.}) for(int base = 0; base < 2; base++) for(int i = 0; i < n; i++) {
        std::vector<int> dig(r1.size(), 0);
        do {
          std::vector<int> all; for(int k = 0; k < n; k++) for(size_t c = 0; c < r1.size(); c++) all.push_back(k == i ? dig[c] : (base ? (k + (int)c) % r1[c] : r1[c]-1));
          std::vector<E> v = decode(o, n, all); bool ok = true;
          if(o.pre) for(auto& e : v) if(!o.pre(e, al)) { if(&e == &v[i]) ok = false; else { e.p = o.mask & PP ? 0 : e.p; if(!o.pre(e, al)) e = v[i]; } }
          if(!ok) continue;
          if(o.pre) for(auto& e : v) ok = ok && o.pre(e, al);
          if(!ok) continue;
          std::string err; trans(); trace();
          if(!one(o, d, 0, w, v, al, err)) { fail("operation", cat(o.name, ": ", err, "; alpha=", al, " data (t,x,z|p,q)=", show(v))); goto next; }
        } while(advance(dig, r1));
      }
      next: state(hs(n, o.name));
    }
    // distributed, every partition over 2 and 3 ranks (parts may be empty)
    for(int P = 2; P <= 3; P++) for(int n = 0; n <= (th ? 4 : 3); n++) {
      if(n > 1 && nconf(o, n) > dlim) continue;
      partitions(n, P, [&](const std::vector<index_type>& p) {
        Dist d{n, p};
        if(!begin(cat("op:", o.name, "-", pname(d)))) return;
        sweep(o, d);
      });
    }
  }
  // compound vectors: every operation they offer, every division of the elements into up to 3 parts (which may be
  // empty), on vectors built from parts and on their clones
  for(auto& o : ops) if(!o.simple) for(int n = 0; n <= (th ? 4 : 3); n++) for(int P = 0; P <= 3; P++) {
    if((n > 1 && nconf(o, n) > dlim) || (P == 0 && n > 0)) continue;
    partitions(n, P, [&](const std::vector<index_type>& p) {
      Dist d{n, p}; for(int kind = 1; kind <= 2; kind++) if(begin(cat("compound:", o.name, kind == 2 ? "-clone-" : "-", pname(d)))) sweep(o, d, kind); });
  }
  for(int n = 0; n <= (th ? 4 : 3); n++) for(int P = 1; P <= 3; P++) partitions(n, P, [&](const std::vector<index_type>& p) {
    Dist d{n, p}; if(begin(cat("compound:indexes-", pname(d)))) compound_indexes(d); });
  int cm = th ? 6 : 5;
  for(int n = 0; n <= cm; n++) for(int m = 0; m <= cm; m++) if(begin(cat("copies:n", n, "-m", m))) copies(n, m);
  for(int P = 1; P <= 4; P++) for(int n = 0; n <= 4; n++) for(int m = 0; m <= 3; m++) partitions(n, P, [&](const std::vector<index_type>& p) {
    Dist d{n, p}; if(begin(cat("blocks:", pname(d), "-m", m))) dist_blocks(d, m); });
}
