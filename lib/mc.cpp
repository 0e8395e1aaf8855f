#include "mc.hpp"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <cstdlib>
#include <map>
#include <unordered_set>
#include <algorithm>
#include <time.h>

namespace mc {
Options opt;
static std::string cur_case;
static char* cur_map = nullptr;
static uint64_t case_no = 0, n_trans = 0, n_trace = 0, n_fail = 0, n_cases = 0;
static std::unordered_set<uint64_t> states;
static std::map<std::string,uint64_t> counters, fail_keys;
static std::map<std::string,std::string> notes;
static std::vector<std::string> samples;
static FILE* out = nullptr;

static std::string esc(const std::string& s)
{
  std::string r; char b[8];
  for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c < 0x20 || c > 0x7e) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r;
}
bool begin(const std::string& id)
{
  uint64_t k = case_no++;
  if(!opt.only.empty()) { if(id != opt.only) return false; }
  else if((int)(k % opt.nshards) != opt.shard) return false;
  cur_case = id; n_cases++;
  if(n_cases == 1 || n_cases == 50 || n_cases == 2000) sample("case " + id);
  if(cur_map) { strncpy(cur_map, id.c_str(), 4000); cur_map[4000] = 0; }
  return true;
}
const std::string& current() { return cur_case; }
bool replaying() { return !opt.only.empty(); }
void fail(const std::string& key, const std::string& detail)
{
  n_fail++;
  if(fail_keys[key]++ < (getenv("MC_ALL") ? 100000 : 40)) {
    fprintf(out, "{\"type\":\"violation\",\"key\":\"%s\",\"case\":\"%s\",\"detail\":\"%s\"}\n", esc(key).c_str(), esc(cur_case).c_str(), esc(detail.substr(0,3000)).c_str());
    fflush(out);
  }
}
void state(uint64_t h) { states.insert(h); }
void trans(uint64_t n) { n_trans += n; }
void trace(uint64_t n) { n_trace += n; }
void count(const std::string& k, uint64_t n) { counters[k] += n; }
void sample(const std::string& s) { if(samples.size() < 4) samples.push_back(s.substr(0,600)); }
void note(const std::string& k, const std::string& v) { notes[k] = v; }
uint64_t nfails() { return n_fail; }

std::string Isolated::describe() const
{
  if(kind == Ok) return "ok";
  if(kind == Timeout) return "did not terminate within its CPU limit";
  std::string e = err; size_t p = e.find("Assertion"); if(p != std::string::npos) { size_t q = e.rfind("\n", p); q = q == std::string::npos ? 0 : q+1; if(p-q > 160) q = p-160; p = q; }
  if(p != std::string::npos) e = e.substr(p, 400); else if(e.size() > 200) e = e.substr(e.size()-200);
  while(!e.empty() && e.back() == '\n') e.pop_back();
  if(sig) return cat("crashed with signal ", sig, ": ", e);
  return cat("exited with code ", code, ": ", e);
}

Isolated isolated(const std::function<std::string()>& body, int cpu_seconds)
{
  int p[2], q[2];
  if(pipe(p) || pipe(q)) { perror("pipe"); _exit(3); }
  fflush(stdout); fflush(stderr); fflush(out);
  pid_t pid = fork();
  if(pid < 0) { perror("fork"); _exit(3); }
  if(pid == 0) {
    ::close(p[0]); ::close(q[0]);
    struct rlimit rl = {(rlim_t)cpu_seconds, (rlim_t)cpu_seconds + 1}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc = {0,0}; setrlimit(RLIMIT_CORE, &rc);
    signal(SIGXCPU, SIG_DFL);
    dup2(q[1], 2);
    std::string t = body();
    size_t o = 0; while(o < t.size()) { ssize_t w = write(p[1], t.data()+o, t.size()-o); if(w <= 0) break; o += w; }
    _exit(0);
  }
  ::close(p[1]); ::close(q[1]);
  Isolated r; char buf[65536]; int open_fds = 2; bool wall = false;
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  struct pollfd pf[2] = {{p[0], POLLIN, 0}, {q[0], POLLIN, 0}};
  while(open_fds > 0) {
    int n = poll(pf, 2, 1000);
    struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
    if(t1.tv_sec - t0.tv_sec > 20L*cpu_seconds + 60) { kill(pid, SIGKILL); wall = true; break; }
    if(n <= 0) continue;
    for(int i = 0; i < 2; i++) if(pf[i].fd >= 0 && (pf[i].revents & (POLLIN|POLLHUP|POLLERR))) {
      ssize_t k = read(pf[i].fd, buf, sizeof buf);
      if(k <= 0) { pf[i].fd = -1; open_fds--; }
      else if(i == 0) r.text.append(buf, k);
      else { r.err.append(buf, k); if(r.err.size() > 20000) r.err.erase(0, r.err.size()-10000); }
    }
  }
  int st; waitpid(pid, &st, 0);
  ::close(p[0]); ::close(q[0]);
  if(wall || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) r.kind = Isolated::Timeout;
  else if(WIFSIGNALED(st)) { r.kind = Isolated::Crash; r.sig = WTERMSIG(st); }
  else if(WEXITSTATUS(st) != 0) { r.kind = Isolated::Crash; r.code = WEXITSTATUS(st); }
  return r;
}

int Choices::next(int n, bool free_alts)
{
  size_t i = pts.size(); int c = 0;
  if(i < prefix.size()) { c = prefix[i]; if(c >= n) { diverged = true; c = 0; } }
  int cost = (i ? pts[i-1].cost : 0) + ((c && !free_alts) ? 1 : 0);
  pts.push_back({n, c, cost, free_alts});
  return c;
}
uint64_t explore(int bound, const std::function<bool(Choices&)>& body, uint64_t cap, bool* capped, int part, int nparts)
{
  std::vector<std::vector<int>> todo; todo.push_back({}); uint64_t n = 0;
  if(capped) *capped = false;
  while(!todo.empty()) {
    if(cap && n >= cap) { if(capped) *capped = true; break; }
    Choices c; c.prefix = todo.back(); todo.pop_back();
    bool root = c.prefix.empty();
    n++;
    bool go = body(c);
    if(c.diverged) { fail("replay-divergence", "an execution diverged while replaying its own prefix"); return n; }
    if(!go) break;
    uint64_t alt_no = 0;
    std::vector<int> taken; for(auto& p : c.pts) taken.push_back(p.taken);
    for(size_t i = c.pts.size(); i-- > c.prefix.size(); ) {
      int before = i ? c.pts[i-1].cost : 0;
      if(!c.pts[i].free && before + 1 > bound) continue;
      for(int a = c.pts[i].n - 1; a >= 1; a--) {
        if(root && (int)(alt_no++ % nparts) != part) continue;
        std::vector<int> pr(taken.begin(), taken.begin()+i); pr.push_back(a); todo.push_back(pr);
      }
    }
  }
  return n;
}
} // namespace mc

using namespace mc;
int main(int argc, char** argv)
{
  for(int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if(a == "--tier") opt.thorough = val() == "thorough";
    else if(a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%d/%d", &opt.shard, &opt.nshards); }
    else if(a == "--case") opt.only = val();
    else if(a == "--out") opt.out = val();
    else if(a == "--scratch") opt.scratch = val();
  }
  if(opt.out.empty()) opt.out = "/dev/stdout";
  out = fopen(opt.out.c_str(), "w");
  if(!out) { perror(opt.out.c_str()); return 3; }
  if(opt.out != "/dev/stdout") {
    int fd = open((opt.out + ".cur").c_str(), O_RDWR|O_CREAT|O_TRUNC, 0644);
    if(fd >= 0 && ftruncate(fd, 4096) == 0) cur_map = (char*)mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
    if(cur_map == MAP_FAILED) cur_map = nullptr;
    // HiOp prints to stdout: keep it out of the way
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
  }
  if(!opt.scratch.empty() && chdir(opt.scratch.c_str())) { perror("chdir"); return 3; }
  mc_body();
  if(opt.out != "/dev/stdout") {
    FILE* f = fopen((opt.out + ".states").c_str(), "w");
    for(uint64_t h : states) fwrite(&h, 8, 1, f);
    fclose(f);
  }
  fprintf(out, "{\"type\":\"summary\",\"cases\":%lu,\"states\":%zu,\"transitions\":%lu,\"traces\":%lu,\"fails\":%lu,\"counters\":{",
          n_cases, states.size(), n_trans, n_trace, n_fail);
  bool first = true;
  for(auto& k : counters) { fprintf(out, "%s\"%s\":%lu", first ? "" : ",", esc(k.first).c_str(), k.second); first = false; }
  fprintf(out, "},\"fail_keys\":{"); first = true;
  for(auto& k : fail_keys) { fprintf(out, "%s\"%s\":%lu", first ? "" : ",", esc(k.first).c_str(), k.second); first = false; }
  fprintf(out, "},\"notes\":{"); first = true;
  for(auto& k : notes) { fprintf(out, "%s\"%s\":\"%s\"", first ? "" : ",", esc(k.first).c_str(), esc(k.second).c_str()); first = false; }
  fprintf(out, "},\"samples\":["); first = true;
  for(auto& s : samples) { fprintf(out, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
  fprintf(out, "]}\n");
  fclose(out);
  return 0;
}
