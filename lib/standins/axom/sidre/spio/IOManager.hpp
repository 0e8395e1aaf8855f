// Stand-in: PATH.root lists the number of ranks; PATH.root.R holds the tree of rank R.
#ifndef VERIF_SIDRE_IO
#define VERIF_SIDRE_IO
#include "mpi.h"
#include "axom/sidre/core/DataStore.hpp"
namespace axom { namespace sidre {
class IOManager {
public:
  explicit IOManager(MPI_Comm c) : c_(c) {}
  void write(const Group* g, int, const std::string& path, const std::string&)
  {
    int r, n; MPI_Comm_rank(c_, &r); MPI_Comm_size(c_, &n); std::string b = path + ".root";
    { std::ofstream f(b + "." + std::to_string(r), std::ios::binary); put(f, *g); } MPI_Barrier(c_);
    if(r == 0) { std::ofstream f(b); f << n << "\n"; } MPI_Barrier(c_);
  }
  void read(Group* g, const std::string& root, bool)
  {
    int r; MPI_Comm_rank(c_, &r); std::ifstream f(root); int n = 0; if(!(f >> n)) throw std::runtime_error("cannot read " + root);
    if(r < n) { std::ifstream d(root + "." + std::to_string(r), std::ios::binary); if(!d) throw std::runtime_error("cannot read " + root + " of this rank"); get(d, *g); }
  }
private:
  MPI_Comm c_;
  template<class T> static void w(std::ostream& f, T x) { f.write((const char*)&x, sizeof x); }
  template<class T> static T rd(std::istream& f) { T x; if(!f.read((char*)&x, sizeof x)) throw std::runtime_error("file is cut off"); return x; }
  static void ws(std::ostream& f, const std::string& s) { w<int64_t>(f, s.size()); f.write(s.data(), s.size()); }
  static std::string rs(std::istream& f) { int64_t n = rd<int64_t>(f); if(n < 0 || n > 10000) throw std::runtime_error("file is damaged"); std::string s(n, ' '); if(n && !f.read(&s[0], n)) throw std::runtime_error("file is cut off"); return s; }
  static void put(std::ostream& f, const Group& g)
  {
    w<int64_t>(f, g.v.size()); for(auto& p : g.v) { ws(f, p.first); w<int64_t>(f, p.second->getNumElements()); for(IndexType i = 0; i < p.second->getNumElements(); i++) w<double>(f, p.second->data()[i*p.second->getStride()]); }
    w<int64_t>(f, g.g.size()); for(auto& p : g.g) { ws(f, p.first); put(f, *p.second); }
  }
  static void get(std::istream& f, Group& g)
  {
    for(int64_t k = rd<int64_t>(f); k > 0; k--) { std::string s = rs(f); int64_t n = rd<int64_t>(f); if(n < 0 || n > 1000000) throw std::runtime_error("file is damaged"); View* v = g.createViewAndAllocate(s, DOUBLE_ID, n); for(int64_t i = 0; i < n; i++) v->getArray()[i] = rd<double>(f); }
    for(int64_t k = rd<int64_t>(f); k > 0; k--) { std::string s = rs(f); get(f, *g.createGroup(s)); }
  }
};
}}
#endif
