#pragma once
// Controlled execution of an SPMD body on N simulated MPI ranks (fibers).
#include <functional>
#include <string>
#include <vector>
#include <cstdint>

namespace sim {

// Decides, at every scheduling point, which of the enabled ranks performs its next MPI step.
// 'enabled' is canonical: the rank that ran last first if it is still enabled, then ascending ids.
using Chooser = std::function<int(const std::vector<int>& enabled, bool running_still_enabled)>;

struct Config {
  int nranks = 1;
  bool rendezvous = false;   // sends complete only once matched (no buffering at all)
  bool sync_collectives = false; // collectives are barriers (default: weakest semantics MPI allows)
  long max_steps = 2000000;  // horizon: MPI steps of all ranks together
  size_t stack_bytes = 1 << 20;
};

struct Outcome {
  bool ok = true;
  std::string error;     // deadlock / mismatch / lifetime / leak diagnosis
  long steps = 0;
  long messages = 0;
  long collectives = 0;
  std::vector<std::string> trace; // one entry per MPI step if tracing
};

// Runs body(rank) on cfg.nranks fibers to completion; returns the outcome.
Outcome run(const Config& cfg, const std::function<void(int)>& body, const Chooser& choose, bool trace = false);

int my_rank();      // rank of the running fiber (0 outside of run())
bool in_run();
// an additional scheduling point at which the harness may place user-code steps
void yield_point(const char* what);

} // namespace sim
