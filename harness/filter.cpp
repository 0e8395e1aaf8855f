// Filter: every sequence of operations up to a depth over a small (theta, phi) grid against a set-based reference.
#include "mc.hpp"
#include "hiopFilter.hpp"
#include <set>
using namespace hiop;
using namespace mc;

static const double TH[] = {0., 0.5, 1., 2.}, PH[] = {-1., 0., 1.};
struct Ref {
  std::vector<std::pair<double,double>> e;
  bool contains(double t, double p) const { for(auto& x : e) if(t >= x.first && p >= x.second) return true; return false; }
};
// operations: 0..11 add(th,ph); 12.. initialize(theta_max in {1,2}); 14 reinitialize(2); 15 clear
enum { NADD = 12, NOPS = 16 };
static std::string opname(int o)
{
  if(o < NADD) return cat("add(", TH[o%4], ",", PH[o/4], ")");
  if(o == 12) return "initialize(1)"; if(o == 13) return "initialize(2)"; if(o == 14) return "reinitialize(2)"; return "clear()";
}
static void apply(hiopFilter& f, Ref& r, int o)
{
  if(o < NADD) { f.add(TH[o%4], PH[o/4]); r.e.push_back({TH[o%4], PH[o/4]}); }
  else if(o == 12 || o == 13) { double m = o == 12 ? 1. : 2.; f.initialize(m); r.e.assign(1, {m, -1e20}); }
  else if(o == 14) { f.reinitialize(2.); r.e.assign(1, {2., -1e20}); }
  else { f.clear(); r.e.clear(); }
}
void mc_body()
{
  int depth = opt.thorough ? 6 : 4;
  std::vector<int> ops;
  std::function<void(int)> rec = [&](int d) {
    // replay on a fresh object
    if((int)ops.size() >= 1) {
      hiopFilter f; Ref r;
      for(int o : ops) apply(f, r, o);
      uint64_t h = 1; std::set<std::pair<double,double>> canon(r.e.begin(), r.e.end());
      for(auto& x : canon) { h = hd(h, x.first); h = hd(h, x.second); }
      state(h); trans(); trace();
      for(double t : {0., 0.25, 0.5, 0.75, 1., 1.5, 2., 3.}) for(double p : {-2e20, -2., -1., -0.5, 0., 0.5, 1., 2.}) {
        if(f.contains(t, p) != r.contains(t, p)) {
          std::string s; for(int o : ops) s += opname(o) + " ";
          fail("filter-answer", cat("after ", s, ": contains(", t, ",", p, ") = ", f.contains(t,p), " expected ", r.contains(t,p)));
          return;
        }
      }
    }
    if(d == 0) return;
    for(int o = 0; o < NOPS; o++) { ops.push_back(o); rec(d-1); ops.pop_back(); }
  };
  for(int a = 0; a < NOPS; a++) for(int b = 0; b < NOPS; b++) {
    if(!begin(cat("ops:", a, ",", b, ",*depth", depth))) continue;
    ops = {a, b}; rec(depth-2);
    if(a == 0 && b == 5) sample(cat(opname(a), " ", opname(b), " then every sequence of ", depth-2, " more operations; 64 queries each"));
  }
}
