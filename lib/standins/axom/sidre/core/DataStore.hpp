// Stand-in for the part of axom::sidre that HiOp uses: a tree of groups holding views of doubles.
#ifndef VERIF_SIDRE
#define VERIF_SIDRE
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <stdexcept>
#include <fstream>
#include <cstdint>
namespace axom { namespace sidre {
typedef int64_t IndexType;
enum TypeID { DOUBLE_ID };
class View {
public:
  explicit View(IndexType n, IndexType stride = 1) : n_(n), stride_(stride), d_((n > 0 ? n : 0)*stride) {}
  IndexType getNumElements() const { return n_; } IndexType getStride() const { return stride_; }
  double* getArray() { return d_.data(); } const double* data() const { return d_.data(); }
private:
  IndexType n_, stride_; std::vector<double> d_;
};
class Group {
public:
  View* getView(const std::string& s) { auto i = v.find(s); return i == v.end() ? nullptr : i->second.get(); }
  const View* getView(const std::string& s) const { auto i = v.find(s); return i == v.end() ? nullptr : i->second.get(); }
  bool hasView(const std::string& s) const { return v.count(s) > 0; }
  View* createViewAndAllocate(const std::string& s, TypeID, IndexType n, IndexType stride = 1) { if(n < 0) throw std::runtime_error("negative size of view " + s); auto& p = v[s]; p.reset(new View(n, stride)); return p.get(); }
  void destroyView(const std::string& s) { v.erase(s); }
  void destroyViewAndData(const std::string& s) { v.erase(s); }
  Group* createGroup(const std::string& s) { auto& p = g[s]; p.reset(new Group); return p.get(); }
  Group* getGroup(const std::string& s) { auto i = g.find(s); return i == g.end() ? nullptr : i->second.get(); }
  const Group* getGroup(const std::string& s) const { auto i = g.find(s); return i == g.end() ? nullptr : i->second.get(); }
  bool hasGroup(const std::string& s) const { return g.count(s) > 0; }
  static std::string getDefaultIOProtocol() { return "sidre_hdf5"; }
  std::map<std::string, std::unique_ptr<View>> v; std::map<std::string, std::unique_ptr<Group>> g;
};
class DataStore { public: Group* getRoot() { return &root; } private: Group root; };
}}
#endif
