// Deterministic simulator: public interface used by scenarios and by the
// simulated environment (net.cc, fs.cc).
//
// Everything nondeterministic in a run is drawn through choose()/chance(), in
// program order; a run is a pure function of (scenario, choice list).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <functional>

namespace sim {

// ---- fault / event kinds counted in the evidence -------------------------
enum Fault : int {
  F_PREEMPT = 0,     // forced context switch at an atomic/lock/memory access
  F_STALL,           // a thread is frozen for a while of simulated time
  F_LEAP,            // simulated time jumps to the next deadline early
  F_SPURIOUS_CV,     // spurious condition variable wake-up
  F_SPURIOUS_FUTEX,  // futex wait returns EINTR / spuriously
  F_CAS_WEAK,        // weak compare-exchange fails spuriously
  F_LATE_WAKE,       // a timed wait returns later than its deadline
  F_ALLOC_FAIL,      // allocation failure
  F_NET_DELAY, F_NET_SPLIT, F_NET_SHORT_WRITE, F_NET_SHORT_READ, F_NET_EAGAIN,
  F_NET_EINTR, F_NET_RESET, F_NET_FIN, F_NET_CONNREFUSED, F_NET_CONNDELAY,
  F_NET_ACCEPT_ERR, F_NET_PARTITION, F_NET_DUP, F_NET_DROP, F_NET_REORDER,
  F_NET_GARBAGE, F_EPOLL_EINTR, F_EPOLL_SPURIOUS,
  F_FS_SHORT_WRITE, F_FS_ERROR, F_FS_SLOW, F_CRASH,
  F_CLOCK_JUMP, F_THREAD_FAIL, F_OP_THROW, F_SHUTDOWN_RACE,
  F_FS_READ_ERROR, F_FS_SHORT_READ, F_FS_OPEN_ERROR, F_FS_EINTR,
  F_COUNT
};
const char *fault_name(int f);

// ---- scenario side --------------------------------------------------------
bool active();                       // inside a simulated run
uint32_t choose(uint32_t n);         // 0..n-1, 0 is the boring default
bool chance(uint32_t permille);      // true with p = permille/1000 (default false)
bool fault(Fault f, uint32_t permille);  // chance(), counted when it fires
uint32_t range(uint32_t lo, uint32_t hi);  // inclusive, lo is the default
void count_fault(Fault f);
uint64_t fault_count(Fault f);         // how often so far in this run
void probe(const char *name);        // "this condition was reached" counter
void event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *cls, const char *fmt, ...)
  __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) \
  do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)

uint64_t now();                      // simulated monotonic ns
uint64_t wall();                     // simulated realtime ns
uint64_t seqno();                    // global event number, strictly increasing
int tid();                           // simulated thread id (0 = scenario main)
void sleep_ns(uint64_t ns);
void yield();                        // scheduling point
// Poll `pred` (evaluated with the baton held) until true; false if more than
// `max_ns` simulated time passes.  Between polls the caller sleeps.
bool wait_until(const std::function<bool()> &pred, uint64_t max_ns,
                uint64_t poll_ns = 200000);
void clock_jump(int64_t delta_ns);   // moves CLOCK_REALTIME only

// Everything not done by harness threads; used by liveness oracles.
struct NoPreempt { NoPreempt(); ~NoPreempt(); };  // oracle code: no switches
// While alive, spawning/faults configured as given
struct Config {
  // scheduling
  int policy = 0;            // 0 random walk, 1 PCT-like, 2 sparse preemptions
  uint32_t p_switch = 0;     // permille, policy 0, at synchronisation operations
  uint32_t mem_gap = 0;      // mean plain accesses between preemptions (0: off)
  uint32_t p_stall = 0, p_leap = 0;          // per 100000 sync points
  uint32_t p_spurious = 0;   // permille on each blocking wait
  uint32_t p_caswk = 0;      // permille
  uint32_t p_late = 0;       // permille on each timed wait
  uint32_t p_alloc = 0;      // per 100000 allocations inside alloc_faults scope
  uint32_t p_thread_fail = 0;
};
Config &config();

// Budget of one run.
void set_step_limit(uint64_t steps);
void set_nprocs(int n);

struct AllocFaults { AllocFaults(uint32_t per100k); ~AllocFaults(); uint32_t old; };

// heap queries
bool heap_is_live(const void *p);
uint64_t heap_live_blocks();
void heap_mark();                    // start counting blocks for leak checks
uint64_t heap_live_since_mark();

// Scenario registry
struct Scenario {
  const char *name;
  void (*fn)();
  uint64_t step_limit;
};
struct Registrar { Registrar(const char *name, void (*fn)(), uint64_t step_limit = 1500000); };
#define SCENARIO(n) \
  static void scen_##n(); \
  static ::sim::Registrar reg_##n(#n, scen_##n); \
  static void scen_##n()
#define SCENARIO_STEPS(n, steps) \
  static void scen_##n(); \
  static ::sim::Registrar reg_##n(#n, scen_##n, steps); \
  static void scen_##n()

// ---- environment side (net.cc / fs.cc) -----------------------------------
void at(uint64_t when_ns, std::function<void()> fn);  // timed event
// Block the calling thread on key until wake(key) or deadline (mono ns, ~0 = none).
// Returns true if woken, false on timeout.
bool block_on(const void *key, uint64_t deadline);
void wake(const void *key, int n = 1 << 30);
void sync_point();
void net_reset();
void fs_reset();
}  // namespace sim
