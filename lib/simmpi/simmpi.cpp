#include "simmpi.hpp"
#include "mpi.h"
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <sstream>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define SIM_ASAN 1
#else
#define SIM_ASAN 0
#endif

// Saves the callee-saved registers and the stack pointer in *from, continues on the stack 'to' (x86-64 System V).
// (swapcontext would do, but makes system calls, and AddressSanitizer intercepts it to clear the shadow of the stack.)
extern "C" void sim_switch(void** from, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

namespace sim {
namespace {

size_t dt_size(MPI_Datatype t)
{
  switch(t) {
  case MPI_CHAR: return 1;
  case MPI_INT: return sizeof(int);
  case MPI_DOUBLE: return sizeof(double);
  case MPI_LONG: return sizeof(long);
  case MPI_LONG_LONG: return sizeof(long long);
  case MPI_UNSIGNED_LONG: return sizeof(unsigned long);
  case MPI_FLOAT: return sizeof(float);
  case MPI_C_BOOL: return sizeof(bool);
  }
  fprintf(stderr, "simmpi: unknown datatype %d\n", t);
  abort();
}

template<class T> void red(T* acc, const T* in, int n, MPI_Op op)
{
  for(int i = 0; i < n; i++) switch(op) {
    case MPI_SUM: acc[i] = acc[i] + in[i]; break;
    case MPI_PROD: acc[i] = acc[i] * in[i]; break;
    case MPI_MIN: acc[i] = in[i] < acc[i] ? in[i] : acc[i]; break;
    case MPI_MAX: acc[i] = in[i] > acc[i] ? in[i] : acc[i]; break;
    case MPI_LAND: acc[i] = (T)(acc[i] && in[i]); break;
    case MPI_LOR: acc[i] = (T)(acc[i] || in[i]); break;
    default: fprintf(stderr, "simmpi: unknown op\n"); abort();
    }
}
void reduce_into(void* acc, const void* in, int n, MPI_Datatype t, MPI_Op op)
{
  switch(t) {
  case MPI_CHAR: red((char*)acc, (const char*)in, n, op); break;
  case MPI_INT: red((int*)acc, (const int*)in, n, op); break;
  case MPI_DOUBLE: red((double*)acc, (const double*)in, n, op); break;
  case MPI_LONG: red((long*)acc, (const long*)in, n, op); break;
  case MPI_LONG_LONG: red((long long*)acc, (const long long*)in, n, op); break;
  case MPI_UNSIGNED_LONG: red((unsigned long*)acc, (const unsigned long*)in, n, op); break;
  case MPI_FLOAT: red((float*)acc, (const float*)in, n, op); break;
  case MPI_C_BOOL: red((bool*)acc, (const bool*)in, n, op); break;
  }
}

struct Req {
  int owner; bool is_send; bool active = true; bool done = false;
  const void* sbuf = nullptr; void* rbuf = nullptr;
  size_t bytes = 0; int peer; int tag; MPI_Comm comm;
  std::vector<char> copy; bool eager = false;  // payload already captured
  size_t got = 0; MPI_Datatype dt; bool detached = false;
};

struct Coll {
  std::string kind; int count; MPI_Datatype dt; MPI_Op op; int root;
  std::vector<char> arrived; int narrived = 0;
  std::vector<std::vector<char>> data;
};

// the execution context of a rank; reused by later runs once its body has returned
struct Context { void* sp = nullptr; char* stack = nullptr; size_t stack_sz = 0; void* fake_stack = nullptr; };
std::vector<Context*> idle;

struct Fiber {
  Context* c = nullptr; bool finished = false;
  std::function<bool()> ready; std::string what;
  size_t coll_seq = 0;
  std::set<int> failed_tests; // requests whose Test failed with nothing new since
  int polls = 0;              // failed Tests since the last event of this rank
};

struct World {
  Config cfg; const std::function<void(int)>* body; 
  std::vector<Fiber> f; int cur = -1; void* main_sp = nullptr; void* main_fake = nullptr;
  const void* main_bottom = nullptr; size_t main_size = 0;
  std::vector<std::unique_ptr<Req>> reqs;
  std::map<std::pair<int,int>, std::deque<int>> sends, recvs; // (src,dst) -> unmatched requests, FIFO
  std::deque<Coll> colls;
  Outcome out; bool trace = false; bool failed = false;
};

World* W = nullptr;

void fail(const std::string& m)
{
  if(W && W->out.ok) { W->out.ok = false; W->out.error = m; W->failed = true; }
}

void to_scheduler()
{
  World* w = W; Fiber& me = w->f[w->cur];
#if SIM_ASAN
  __sanitizer_start_switch_fiber(&me.c->fake_stack, w->main_bottom, w->main_size);
#endif
  Context* c = me.c;
  sim_switch(&c->sp, w->main_sp);
#if SIM_ASAN
  __sanitizer_finish_switch_fiber(c->fake_stack, &W->main_bottom, &W->main_size);
#endif
}

// scheduling point of the running rank: resumes once 'ready' holds and the chooser picks this rank
void point(const std::string& what, std::function<bool()> ready)
{
  Fiber& me = W->f[W->cur];
  me.what = what; me.ready = std::move(ready);
  to_scheduler();
  W->out.steps++;
  if(W->trace) { std::ostringstream o; o << "r" << W->cur << " " << what; W->out.trace.push_back(o.str()); }
}

// a step that commutes with every step of the other ranks: no choice here
void step(const char* what)
{
  W->out.steps++;
  if(W->trace) { std::ostringstream o; o << "r" << W->cur << " " << what; W->out.trace.push_back(o.str()); }
}

void trampoline()
{
#if SIM_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &W->main_bottom, &W->main_size);
#endif
  while(true) {
    (*W->body)(W->cur);
    Fiber& me = W->f[W->cur];
    me.finished = true; me.ready = nullptr; me.what = "finished";
    to_scheduler();   // resumed by a later run
  }
}

bool dead(const void* p, size_t n)
{
#if SIM_ASAN
  return n && __asan_region_is_poisoned(const_cast<void*>(p), n) != nullptr;
#else
  (void)p; (void)n; return false;
#endif
}

void event(int r) { W->f[r].failed_tests.clear(); W->f[r].polls = 0; }

void try_match(int src, int dst)
{
  auto& S = W->sends[{src,dst}]; auto& R = W->recvs[{src,dst}];
  bool again = true;
  while(again) {
    again = false;
    for(size_t i = 0; i < R.size() && !again; i++) {
      Req& r = *W->reqs[R[i]];
      for(size_t j = 0; j < S.size(); j++) {
        Req& s = *W->reqs[S[j]];
        if(r.tag != MPI_ANY_TAG && r.tag != s.tag) continue;
        std::ostringstream o;
        if(s.bytes > r.bytes) { o << "message of " << s.bytes << " bytes (tag " << s.tag << ", " << src << "->" << dst
                                  << ") truncated: receive posted for " << r.bytes; fail(o.str()); return; }
        if(s.dt != r.dt) { o << "datatype mismatch (tag " << s.tag << ", " << src << "->" << dst << ")"; fail(o.str()); return; }
        if(dead(r.rbuf, s.bytes)) { o << "message (tag " << s.tag << ", " << src << "->" << dst
                                      << ") delivered into a receive buffer that is no longer alive"; fail(o.str()); return; }
        if(s.eager) memcpy(r.rbuf, s.copy.data(), s.bytes);
        else {
          if(dead(s.sbuf, s.bytes)) { o << "message (tag " << s.tag << ", " << src << "->" << dst
                                        << ") sent from a buffer that is no longer alive"; fail(o.str()); return; }
          memcpy(r.rbuf, s.sbuf, s.bytes);
        }
        r.done = s.done = true; r.got = s.bytes;
        event(dst); event(src);
        W->out.messages++;
        S.erase(S.begin()+j); R.erase(R.begin()+i);
        again = true; break;
      }
    }
  }
}

int new_req(bool is_send, const void* sb, void* rb, int count, MPI_Datatype dt, int peer, int tag, MPI_Comm c, bool eager)
{
  std::unique_ptr<Req> q(new Req);
  q->owner = W->cur; q->is_send = is_send; q->sbuf = sb; q->rbuf = rb; q->bytes = count*dt_size(dt); q->peer = peer;
  q->tag = tag; q->comm = c; q->dt = dt;
  if(is_send && eager) { q->eager = true; q->copy.resize(q->bytes); if(q->bytes) memcpy(q->copy.data(), sb, q->bytes); }
  W->reqs.push_back(std::move(q));
  return (int)W->reqs.size()-1;
}

bool complete(int id) { Req& q = *W->reqs[id]; return q.done || (q.is_send && q.eager); }

// a rank that polls in a loop reaches each of its requests within as many polls as it has requests
bool may_still_find(int rank)
{
  int other = 0, n = 0;
  for(auto& q : W->reqs) if(q->owner == rank && q->active && !q->detached) { n++; if(q->done || (q->is_send && q->eager)) other++; }
  return other && W->f[rank].polls <= n;
}

int post(bool is_send, const void* sb, void* rb, int count, MPI_Datatype dt, int peer, int tag, MPI_Comm c, bool eager)
{
  if(peer < 0 || peer >= W->cfg.nranks) { fail("peer rank out of range"); return -1; }
  if(peer == W->cur && c == MPI_COMM_WORLD && !is_send && peer < 0) return -1;
  int id = new_req(is_send, sb, rb, count, dt, peer, tag, c, eager);
  int src = is_send ? W->cur : peer, dst = is_send ? peer : W->cur;
  (is_send ? W->sends : W->recvs)[{src,dst}].push_back(id);
  if(is_send) event(dst);
  try_match(src, dst);
  return id;
}

void spin_forever() { while(true) point("stopped", [](){ return false; }); }

// returns the collective record of this rank's next collective
Coll& arrive(const std::string& kind, int count, MPI_Datatype dt, MPI_Op op, int root, const void* contrib, size_t bytes, size_t& idx)
{
  Fiber& me = W->f[W->cur];
  idx = me.coll_seq++;
  if(idx >= W->colls.size()) {
    Coll c; c.kind = kind; c.count = count; c.dt = dt; c.op = op; c.root = root;
    c.arrived.assign(W->cfg.nranks, 0); c.data.resize(W->cfg.nranks);
    W->colls.push_back(c); W->out.collectives++;
  }
  Coll& c = W->colls[idx];
  if(c.kind != kind || c.count != count || c.dt != dt || c.op != op || c.root != root) {
    std::ostringstream o;
    o << "collective mismatch at #" << idx << ": rank " << W->cur << " calls " << kind << "(count=" << count << ",root=" << root
      << ") while another rank called " << c.kind << "(count=" << c.count << ",root=" << c.root << ")";
    fail(o.str()); spin_forever();
  }
  c.arrived[W->cur] = 1; c.narrived++;
  if(contrib) c.data[W->cur].assign((const char*)contrib, (const char*)contrib + bytes);
  return c;
}

} // anonymous

bool in_run() { return W != nullptr && W->cur >= 0; }
int my_rank() { return in_run() ? W->cur : 0; }
void yield_point(const char* what) { if(in_run()) point(what, [](){ return true; }); }

Outcome run(const Config& cfg, const std::function<void(int)>& body, const Chooser& choose, bool trace)
{
  World w; w.cfg = cfg; w.body = &body; w.f.resize(cfg.nranks); w.trace = trace;
  W = &w;
  for(int r = 0; r < cfg.nranks; r++) {
    Fiber& f = w.f[r];
    if(!idle.empty() && idle.back()->stack_sz == cfg.stack_bytes + 4096) { f.c = idle.back(); idle.pop_back(); }
    else {
      Context* c = f.c = new Context;
      c->stack_sz = cfg.stack_bytes + 4096;
      c->stack = (char*)mmap(nullptr, c->stack_sz, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
      if(c->stack == MAP_FAILED) { perror("mmap"); abort(); }
      mprotect(c->stack, 4096, PROT_NONE);
      void** top = (void**)(c->stack + c->stack_sz);
      *--top = nullptr;                 // the trampoline's return address (it never returns); keeps the ABI's alignment
      *--top = (void*)&trampoline;
      for(int k = 0; k < 6; k++) *--top = nullptr;
      c->sp = top;
    }
    f.ready = [](){ return true; }; f.what = "start";
  }
  int last = -1;
  while(!w.failed) {
    std::vector<int> en; bool alive = false; bool running_enabled = false;
    for(int r = 0; r < cfg.nranks; r++) if(!w.f[r].finished) alive = true;
    if(!alive) break;
    if(last >= 0 && !w.f[last].finished && w.f[last].ready()) { en.push_back(last); running_enabled = true; }
    for(int r = 0; r < cfg.nranks; r++) if(r != last && !w.f[r].finished && w.f[r].ready()) en.push_back(r);
    if(en.empty()) {
      std::ostringstream o; o << "deadlock:";
      for(int r = 0; r < cfg.nranks; r++) o << " rank" << r << "=" << w.f[r].what;
      fail(o.str()); break;
    }
    if(w.out.steps > cfg.max_steps) { fail("livelock: horizon of MPI steps exceeded"); break; }
    int pick = en.size() == 1 ? en[0] : choose(en, running_enabled);
    Fiber& f = w.f[pick];
    w.cur = pick; last = pick;
#if SIM_ASAN
    __sanitizer_start_switch_fiber(&w.main_fake, f.c->stack + 4096, cfg.stack_bytes);
#endif
    sim_switch(&w.main_sp, f.c->sp);
#if SIM_ASAN
    __sanitizer_finish_switch_fiber(w.main_fake, nullptr, nullptr);
#endif
    w.cur = -1;
  }
  if(w.out.ok) {
    for(auto& kv : w.sends) if(!kv.second.empty()) {
      std::ostringstream o; o << "message " << kv.first.first << "->" << kv.first.second << " (tag " << w.reqs[kv.second[0]]->tag << ") never received"; fail(o.str()); }
    for(auto& kv : w.recvs) if(!kv.second.empty()) {
      std::ostringstream o; o << "receive posted by " << kv.first.second << " from " << kv.first.first << " never matched"; fail(o.str()); }
  }
  for(auto& f : w.f) {
    if(f.finished) { idle.push_back(f.c); continue; }
    // abandoned in the middle of its body: never resumed
#if SIM_ASAN
    __asan_unpoison_memory_region(f.c->stack + 4096, cfg.stack_bytes);
#endif
    munmap(f.c->stack, f.c->stack_sz); delete f.c;
  }
  W = nullptr;
  return w.out;
}

} // namespace sim

using namespace sim;
static bool world(MPI_Comm c) { return in_run() && c == MPI_COMM_WORLD; }
static auto always = [](){ return true; };

extern "C" {

int MPI_Init(int*, char***) { return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalize(void) { return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int c) { fprintf(stderr, "MPI_Abort(%d)\n", c); abort(); }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = world(c) ? W->cur : 0; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = world(c) ? W->cfg.nranks : 1; return MPI_SUCCESS; }
static double clk = 0.;
double MPI_Wtime(void) { clk += 1e-6; return clk; }
MPI_Comm MPI_Comm_f2c(MPI_Fint c) { return (MPI_Comm)c; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return (MPI_Fint)c; }

int MPI_Barrier(MPI_Comm c)
{
  if(!world(c)) return MPI_SUCCESS;
  step("Barrier"); size_t k; arrive("Barrier", 0, 0, 0, 0, nullptr, 0, k);
  int n = W->cfg.nranks; point("Barrier-wait", [k,n](){ return W->colls[k].narrived == n; });
  return MPI_SUCCESS;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  if(!world(c)) return MPI_SUCCESS;
  step("Bcast");
  size_t by = n*dt_size(t), k; bool isroot = W->cur == root;
  arrive("Bcast", n, t, 0, root, isroot ? b : nullptr, by, k);
  int nr = W->cfg.nranks;
  if(W->cfg.sync_collectives) point("Bcast-wait", [k,nr](){ return W->colls[k].narrived == nr; });
  else if(!isroot) point("Bcast-wait", [k,root](){ return W->colls[k].arrived[root] != 0; });
  if(!isroot && by) memcpy(b, W->colls[k].data[root].data(), by);
  return MPI_SUCCESS;
}
static void do_reduce(size_t k, void* out, int n, MPI_Datatype t, MPI_Op op)
{
  Coll& C = W->colls[k]; std::vector<char> acc = C.data[0];
  for(int r = 1; r < W->cfg.nranks; r++) reduce_into(acc.data(), C.data[r].data(), n, t, op);
  if(!acc.empty()) memcpy(out, acc.data(), acc.size());
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
  size_t by = n*dt_size(t);
  if(!world(c)) { if(s != MPI_IN_PLACE && by) memmove(r, s, by); return MPI_SUCCESS; }
  step("Reduce"); size_t k; bool isroot = W->cur == root;
  arrive("Reduce", n, t, op, root, s == MPI_IN_PLACE ? r : s, by, k);
  int nr = W->cfg.nranks;
  if(isroot || W->cfg.sync_collectives) point("Reduce-wait", [k,nr](){ return W->colls[k].narrived == nr; });
  if(isroot) do_reduce(k, r, n, t, op);
  return MPI_SUCCESS;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  size_t by = n*dt_size(t);
  if(!world(c)) { if(s != MPI_IN_PLACE && by) memmove(r, s, by); return MPI_SUCCESS; }
  step("Allreduce"); size_t k;
  if(s != MPI_IN_PLACE && s == r && by) { fail("Allreduce with aliased send and receive buffers"); }
  arrive("Allreduce", n, t, op, -1, s == MPI_IN_PLACE ? r : s, by, k);
  int nr = W->cfg.nranks; point("Allreduce-wait", [k,nr](){ return W->colls[k].narrived == nr; });
  do_reduce(k, r, n, t, op);
  return MPI_SUCCESS;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c)
{
  size_t by = sn*dt_size(st);
  if(!world(c)) { if(s != MPI_IN_PLACE && by) memmove(r, s, by); return MPI_SUCCESS; }
  step("Allgather"); size_t k;
  arrive("Allgather", sn, st, 0, -1, s, by, k); (void)rn; (void)rt;
  int nr = W->cfg.nranks; point("Allgather-wait", [k,nr](){ return W->colls[k].narrived == nr; });
  for(int i = 0; i < nr; i++) memcpy((char*)r + i*by, W->colls[k].data[i].data(), by);
  return MPI_SUCCESS;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  size_t by = sn*dt_size(st);
  if(!world(c)) { if(by) memmove(r, s, by); return MPI_SUCCESS; }
  step("Gather"); size_t k;
  arrive("Gather", sn, st, 0, root, s, by, k); (void)rn; (void)rt;
  int nr = W->cfg.nranks; 
  if(W->cur == root) {
    point("Gather-wait", [k,nr](){ return W->colls[k].narrived == nr; });
    for(int i = 0; i < nr; i++) memcpy((char*)r + i*by, W->colls[k].data[i].data(), by);
  }
  return MPI_SUCCESS;
}
static std::string lbl(const char* n, int peer, int tag) { std::ostringstream o; o << n << "(peer " << peer << ",tag " << tag << ")"; return o.str(); }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q)
{
  if(!in_run()) return MPI_ERR_OTHER;
  point(lbl("Isend", dst, tag), always);
  *q = post(true, b, nullptr, n, t, dst, tag, c, !W->cfg.rendezvous);
  return MPI_SUCCESS;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* q)
{
  if(!in_run()) return MPI_ERR_OTHER;
  point(lbl("Irecv", src, tag), always);
  *q = post(false, nullptr, b, n, t, src, tag, c, false);
  return MPI_SUCCESS;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
  if(!in_run()) return MPI_ERR_OTHER;
  point(lbl("Send", dst, tag), always);
  int id = post(true, b, nullptr, n, t, dst, tag, c, !W->cfg.rendezvous);
  if(id < 0) spin_forever();
  W->reqs[id]->detached = true;
  if(W->cfg.rendezvous) point(lbl("Send-wait", dst, tag), [id](){ return complete(id); });
  W->reqs[id]->active = false;
  return MPI_SUCCESS;
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
  if(!in_run()) return MPI_ERR_OTHER;
  point(lbl("Ssend", dst, tag), always);
  int id = post(true, b, nullptr, n, t, dst, tag, c, false);
  if(id < 0) spin_forever();
  W->reqs[id]->detached = true;
  point(lbl("Ssend-wait", dst, tag), [id](){ return complete(id); });
  W->reqs[id]->active = false;
  return MPI_SUCCESS;
}
static void set_status(MPI_Status* st, Req& q)
{
  if(st) { st->MPI_SOURCE = q.peer; st->MPI_TAG = q.tag; st->MPI_ERROR = 0; st->sim_count = (int)(q.got / dt_size(q.dt)); }
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st)
{
  if(!in_run()) return MPI_ERR_OTHER;
  point(lbl("Recv", src, tag), always);
  int id = post(false, nullptr, b, n, t, src, tag, c, false);
  if(id < 0) spin_forever();
  W->reqs[id]->detached = true;
  point(lbl("Recv-wait", src, tag), [id](){ return complete(id); });
  W->reqs[id]->active = false;
  set_status(st, *W->reqs[id]);
  return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* q, MPI_Status* st)
{
  if(*q == MPI_REQUEST_NULL) return MPI_SUCCESS;
  if(!in_run()) return MPI_ERR_OTHER;
  int id = *q; Req& R = *W->reqs[id];
  if(R.owner != W->cur) fail("request waited on by a rank that does not own it");
  if(!R.active) { fail("request used after completion"); spin_forever(); }
  point(lbl(R.is_send ? "Wait-send" : "Wait-recv", R.peer, R.tag), [id](){ return complete(id); });
  W->reqs[id]->active = false; set_status(st, *W->reqs[id]);
  *q = MPI_REQUEST_NULL;
  return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status*) { for(int i = 0; i < n; i++) MPI_Wait(q+i, nullptr); return MPI_SUCCESS; }
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* st)
{
  if(*q == MPI_REQUEST_NULL) {
    *flag = 1;
    if(in_run() && ++W->out.steps > W->cfg.max_steps) { fail("livelock: horizon of MPI steps exceeded"); spin_forever(); }
    return MPI_SUCCESS;
  }
  if(!in_run()) return MPI_ERR_OTHER;
  int id = *q; Req& R = *W->reqs[id]; int me = W->cur;
  if(R.owner != W->cur) fail("request tested by a rank that does not own it");
  if(!R.active) { fail("request used after completion"); spin_forever(); }
  // a poll whose answer cannot have changed since the same poll failed is not a step (the rank waits)
  point(lbl(R.is_send ? "Test-send" : "Test-recv", R.peer, R.tag), [id,me](){
    return complete(id) || W->f[me].failed_tests.count(id) == 0 || may_still_find(me); });
  if(complete(id)) {
    *flag = 1; W->reqs[id]->active = false; set_status(st, *W->reqs[id]); *q = MPI_REQUEST_NULL;
    event(me);
  } else { *flag = 0; W->f[me].failed_tests.insert(id); W->f[me].polls++; }
  return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request* q, int* flag, MPI_Status*)
{
  *flag = 1; for(int i = 0; i < n; i++) { int f; MPI_Test(q+i, &f, nullptr); if(!f) *flag = 0; } return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype, int* n) { *n = st->sim_count; return MPI_SUCCESS; }
int MPI_Request_free(MPI_Request* q) { if(*q >= 0 && W) W->reqs[*q]->detached = true; *q = MPI_REQUEST_NULL; return MPI_SUCCESS; }

} // extern "C"
