// Shared helpers for scenarios.  Scenario code is instrumented like the code
// under test; everything shared between simulated threads that is not part of
// the code under test is touched under sim::NoPreempt.
#pragma once
#include "../sim/sim.h"
#include <chrono>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace scen {
using namespace std::chrono_literals;
using ms = std::chrono::milliseconds;

constexpr uint64_t kMs = 1000000ull;
constexpr uint64_t kSec = 1000000000ull;

// A harness thread (a caller of the library).
struct Thr {
  std::thread t;
  template <typename F> explicit Thr(F f) : t(std::move(f)) {}
  Thr(Thr &&) = default;
  ~Thr() { if (t.joinable()) t.join(); }
  void join() { if (t.joinable()) t.join(); }
};

// Liveness: fail with a hang if `pred` does not hold within `bound`.
inline void eventually(const std::function<bool()> &pred, const char *cls,
                       const char *what, uint64_t bound = 120 * kSec) {
  if (!sim::wait_until(pred, bound))
    sim::fail(cls, "%s not reached within %llu simulated ms", what,
              (unsigned long long)(bound / kMs));
}

// Liveness once faults stop: a run that is merely slow gets the stalls, leaps
// and late wake-ups switched off before it is given up.
inline bool patient(const std::function<bool()> &pred, uint64_t bound = 60 * kSec) {
  if (sim::wait_until(pred, bound, kMs)) return true;
  auto &c = sim::config();
  c.p_stall = c.p_leap = c.p_late = 0;
  return sim::wait_until(pred, 2 * bound, kMs);
}

// A small amount of simulated work.
inline void maybe_pause(uint32_t max_us = 3000) {
  switch (sim::choose(6)) {
    case 1: sim::yield(); break;
    case 2: sim::sleep_ns(1000ull * (1 + sim::choose(20))); break;
    case 3: sim::sleep_ns(1000ull * (1 + sim::choose(max_us))); break;
    default: break;
  }
}
}  // namespace scen
