#pragma once
// Harness support: case enumeration, sharding, bookkeeping of what was explored, fault isolation, DFS over choices.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <functional>
#include <string>
#include <vector>
#include <sstream>
#include <iomanip>

namespace mc {

struct Options {
  bool thorough = false;
  int shard = 0, nshards = 1;
  std::string only;        // run this case only (replay)
  std::string out;         // result file (json lines)
  std::string scratch;     // private scratch directory (cwd)
};
extern Options opt;

// Starts case 'id'.  Returns false if the case belongs to another shard or is not the one being replayed.
bool begin(const std::string& id);
const std::string& current();
bool replaying();

// A violation of the property in the current case. 'key' identifies the kind of failure (known findings match on key+case).
void fail(const std::string& key, const std::string& detail);

void state(uint64_t h);           // a visited state (distinct ones are counted, over all shards)
void trans(uint64_t n = 1);       // transitions / operations executed
void trace(uint64_t n = 1);       // executions of the implementation compared with the reference
void count(const std::string& k, uint64_t n = 1); // named counters
void sample(const std::string& s);
void note(const std::string& k, const std::string& v);
uint64_t nfails();

struct Isolated {
  enum Kind { Ok, Crash, Timeout } kind = Ok;
  int sig = 0, code = 0;
  std::string text;   // what the body returned
  std::string err;    // tail of the child's stderr
  std::string describe() const;
};
// Runs body in a forked child; a crash, an abort or an endless loop becomes a result.
Isolated isolated(const std::function<std::string()>& body, int cpu_seconds = 20);

// ---- hashing
inline uint64_t mix(uint64_t h, uint64_t v)
{ h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
inline uint64_t hd(uint64_t h, double d) { uint64_t u; if(d == 0) d = 0; memcpy(&u, &d, 8); return mix(h, u); }
inline uint64_t hs(uint64_t h, const std::string& s) { for(char c : s) h = mix(h, (unsigned char)c); return mix(h, s.size()); }
template<class V> uint64_t hv(uint64_t h, const V& v) { for(auto& e : v) h = hd(h, (double)e); return mix(h, v.size()); }

// ---- formatting
template<class T> std::string str(const T& t) { std::ostringstream o; o << std::setprecision(17) << t; return o.str(); }
template<class T> std::string vstr(const std::vector<T>& v)
{ std::ostringstream o; o << std::setprecision(17) << "["; for(size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
template<class... A> std::string cat(const A&... a)
{ std::ostringstream o; o << std::setprecision(17); int d[] = {0, ((void)(o << a), 0)...}; (void)d; return o.str(); }

inline bool near(double a, double b, double tol)
{ if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if(a == b) return true;
  return std::fabs(a-b) <= tol*(1.0 + std::fmax(std::fabs(a), std::fabs(b))); }

// ---- stateless depth-first exploration of choice sequences, with a bound on deviations from the default (choice 0)
class Choices {
public:
  struct P { int n, taken, cost; bool free; };
  // n alternatives; alternative 0 is the default. 'free_alts': picking another alternative costs nothing
  int next(int n, bool free_alts = false);
  std::vector<P> pts; std::vector<int> prefix; bool diverged = false;
};
// returns the number of executions; body returns false to stop the exploration
uint64_t explore(int bound, const std::function<bool(Choices&)>& body, uint64_t cap = 0, bool* capped = nullptr,
                 int part = 0, int nparts = 1); // part/nparts: share of the root's alternatives (root itself: part 0)

// odometer over mixed radices
inline bool advance(std::vector<int>& d, const std::vector<int>& radix)
{ for(size_t i = 0; i < d.size(); i++) { if(++d[i] < radix[i]) return true; d[i] = 0; } return false; }

} // namespace mc

void mc_body();  // supplied by the harness
