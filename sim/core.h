// Internal: result block shared between a run (child) and the runner (parent).
#pragma once
#include "sim.h"

namespace sim {

enum ChoiceKind : uint32_t { K_OP = 1, K_SCHED, K_PICK, K_STALL, K_LEAP };

struct Choice { uint64_t ci; uint32_t val; uint32_t kind; };

constexpr int kMaxChoices = 400000;
constexpr int kMaxProbes = 96;

struct ResultBlock {
  volatile int status;        // 0 not finished, 1 ok, 2 violation, 3 internal error
  char cls[96];
  char sig[256];              // stable signature (class + site)
  char msg[4096];
  uint64_t hash;              // hash of every switch, choice and event
  uint64_t sched_hash;        // hash of the interleaving only
  uint64_t steps, switches, sim_ns, syncs, events, allocs;
  uint64_t faults[F_COUNT];
  struct { char name[40]; uint64_t n; } probes[kMaxProbes];
  int nprobes;
  int nthreads;
  uint64_t nchoices;          // recorded non-default choices
  int truncated;
  char trace[1 << 17];        // tail of the event log (ring)
  uint64_t trace_pos;
  Choice choices[kMaxChoices];
};

struct RunSpec {
  const Scenario *scn;
  uint64_t seed;
  bool replay;
  const Choice *over;         // sorted by ci
  uint64_t nover;
  bool verbose;               // print the event log to stderr while running
};

// Runs one simulation in the calling (freshly forked) process; never returns.
[[noreturn]] void run_child(const RunSpec &spec, ResultBlock *rb);
void init_process();          // once, in the parent
const Scenario *find_scenario(const char *name);
int scenario_count();
const Scenario *scenario_at(int i);
}  // namespace sim
