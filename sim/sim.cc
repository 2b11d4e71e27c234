// Deterministic simulator core: scheduler, virtual clock, heap, interposed
// pthread/futex/clock calls and the -fsanitize=thread instrumentation callbacks
// (the code under test is compiled with the instrumentation, but linked against
// this file instead of libtsan).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <cstddef>
// The simulator's own block operations are not those of the code under test (see __wrap_memcpy).
extern "C" {
void *memcpy(void *, const void *, size_t) noexcept __asm__("__real_memcpy");
void *memmove(void *, const void *, size_t) noexcept __asm__("__real_memmove");
void *memset(void *, int, size_t) noexcept __asm__("__real_memset");
}
#include "core.h"
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>
#include <signal.h>

extern "C" int get_nprocs(void) noexcept;

namespace sim { extern int g_pid; }
namespace sim {

// ------------------------------------------------------------------ raw calls
static long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0,
                        long e = 0, long f = 0) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

template <typename F> static F real_fn(const char *name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name) \
  ([]() { static auto f = real_fn<decltype(&::name)>(#name); return f; }())

// ------------------------------------------------------------------ state
constexpr int kMaxThreads = 1000;
constexpr uint64_t kNever = ~0ull;
constexpr size_t kStackSize = 512 * 1024;
static char *const kStackBase = reinterpret_cast<char *>(0x200000000000ull);
static char *const kArenaBase = reinterpret_cast<char *>(0x100000000000ull);
constexpr size_t kArenaSize = 8ull << 30;
static uint8_t *const kShadowBase = reinterpret_cast<uint8_t *>(0x180000000000ull);

enum State { S_RUN, S_BLOCK, S_DONE };

struct Thread {
  int id;
  int state;
  int go;                 // real futex word
  const void *key;        // what it is blocked on
  const char *why;
  uint64_t deadline;      // effective mono ns
  bool rt_clock;          // deadline expressed on CLOCK_REALTIME
  bool woken;
  int64_t prio;
  int nopre;              // >0: hooks are transparent
  void *(*fn)(void *);
  void *arg;
  void *ret;
  bool detached;
  bool joined;
  pthread_t real;
  uint64_t run_since;     // ci at last switch-in
  char altstack[65536];
};

static Thread g_threads[kMaxThreads];
static int g_nthreads = 0;
static bool g_active = false;
static __thread Thread *self __attribute__((tls_model("initial-exec"))) = nullptr;
static ResultBlock *rb = nullptr;
static Config g_cfg;
static uint64_t g_now = 0;                      // mono ns
static int64_t g_rt_off = 1700000000000000000ll;  // realtime = mono + off
static uint64_t ci = 0;                         // choice counter
static uint64_t g_attn = kNever;                // next ci a memory hook must stop at
static uint64_t g_step_limit = 3000000;
static uint64_t g_seq = 0;
static RunSpec g_spec;
static uint64_t g_ov = 0;                       // next override
static uint64_t g_next_change = kNever;         // PCT change point / sparse preemption
static int64_t g_low_prio = 0;
static int g_nprocs = 3;
static int g_next_real_err = 0;
static bool g_failing = false;
static uint64_t g_mem_next = kNever;
static thread_local uint32_t g_alloc_p = 0;
static int g_saved_stderr = 2;

// timed events -----------------------------------------------------------
struct Ev { uint64_t when, seq; std::function<void()> *fn; };
static Ev g_evs[8192];
static int g_nev = 0;
static uint64_t g_evseq = 0;
static void run_due_events();

// PRNG ---------------------------------------------------------------------
static uint64_t g_rng[2];
static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline uint64_t rnd() {
  uint64_t s1 = g_rng[0], s0 = g_rng[1], r = s0 + s1;
  g_rng[0] = s0;
  s1 ^= s1 << 23;
  g_rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}
static inline uint64_t logu(int lo, int hi) {  // ~log-uniform in [2^lo, 2^hi]
  int b = lo + static_cast<int>(rnd() % (hi - lo + 1));
  return (1ull << b) + (b ? rnd() % (1ull << b) : 0);
}

// hashing and tracing --------------------------------------------------------
static inline void mix(uint64_t &h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
}
static void trace_raw(const char *s, size_t n) {
  for (size_t i = 0; i < n; ++i)
    rb->trace[rb->trace_pos++ % sizeof(rb->trace)] = s[i];
}
static void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void tracef(const char *fmt, ...) {
  char buf[700];
  int n = snprintf(buf, 80, "[%llu.%06llums t%d c%llu] ",
                   (unsigned long long)(g_now / 1000000),
                   (unsigned long long)(g_now % 1000000), self ? self->id : -1,
                   (unsigned long long)ci);
  va_list ap;
  va_start(ap, fmt);
  int m = vsnprintf(buf + n, sizeof(buf) - n - 2, fmt, ap);
  va_end(ap);
  if (m > (int)sizeof(buf) - n - 3) m = sizeof(buf) - n - 3;
  n += m;
  buf[n++] = '\n';
  trace_raw(buf, n);
  if (g_spec.verbose) raw_syscall(SYS_write, g_saved_stderr, (long)buf, n);
}

// ------------------------------------------------------------------ failing
static void finish(int status) {
  rb->steps = ci;
  rb->sim_ns = g_now - 1000000000ull;
  rb->nthreads = g_nthreads;
  __atomic_store_n(&rb->status, status, __ATOMIC_SEQ_CST);
  raw_syscall(SYS_exit_group, status == 1 ? 0 : 10);
  __builtin_unreachable();
}

static void demangle_into(char *out, size_t n, const char *sym) {
  // Strip nothing; keep the mangled name (the runner demangles).
  snprintf(out, n, "%s", sym);
}

static void violation(const char *cls, const char *msg, int skip) {
  if (g_failing) raw_syscall(SYS_exit_group, 11);
  g_failing = true;
  if (self) self->nopre++;
  snprintf(rb->cls, sizeof(rb->cls), "%s", cls);
  size_t n = snprintf(rb->msg, sizeof(rb->msg), "%s\n", msg);
  tracef("VIOLATION %s: %s", cls, msg);
  void *bt[24];
  int k = backtrace(bt, 24);
  char sig[256];
  size_t sn = snprintf(sig, sizeof(sig), "%s", cls);
  int named = 0;
  for (int i = skip; i < k && n < sizeof(rb->msg) - 200; ++i) {
    Dl_info di;
    char nm[160];
    if (dladdr(bt[i], &di) && di.dli_sname) {
      demangle_into(nm, sizeof(nm), di.dli_sname);
      if (named < 2 && strncmp(nm, "__tsan", 6) && strncmp(nm, "_ZN3sim", 7) &&
          strncmp(nm, "__wrap", 6) && strncmp(nm, "pthread_", 8)) {
        if (sn < sizeof(sig) - 80)
          sn += snprintf(sig + sn, sizeof(sig) - sn, "|%.70s", nm);
        named++;
      }
    } else {
      snprintf(nm, sizeof(nm), "%p", bt[i]);
    }
    n += snprintf(rb->msg + n, sizeof(rb->msg) - n, "    #%d %s\n", i - skip, nm);
  }
  memcpy(rb->sig, sig, sizeof(sig));
  finish(2);
}

static void internal_error(const char *msg) {
  snprintf(rb->cls, sizeof(rb->cls), "internal-error");
  snprintf(rb->msg, sizeof(rb->msg), "%s", msg);
  finish(3);
}

void fail(const char *cls, const char *fmt, ...) {
  char buf[2048];
  if (self) self->nopre++;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  violation(cls, buf, 2);
  __builtin_unreachable();
}

// ------------------------------------------------------------------ choices
static uint32_t replay_value(uint32_t kind) {
  while (g_ov < g_spec.nover && g_spec.over[g_ov].ci < ci) ++g_ov;
  for (uint64_t i = g_ov; i < g_spec.nover && g_spec.over[i].ci == ci; ++i)
    if (g_spec.over[i].kind == kind) return g_spec.over[i].val;
  return 0;
}
static void record(uint32_t kind, uint32_t val) {
  mix(rb->hash, (uint64_t(kind) << 32) | val);
  mix(rb->hash, ci);
  if (rb->nchoices < (uint64_t)kMaxChoices)
    rb->choices[rb->nchoices++] = {ci, val, kind};
  else
    rb->truncated = 1;
}

static void set_attn() {
  // ci value at which plain-memory hooks must take the slow path
  uint64_t a = g_step_limit;
  if (g_spec.replay) {
    while (g_ov < g_spec.nover && g_spec.over[g_ov].ci <= ci) ++g_ov;
    if (g_ov < g_spec.nover && g_spec.over[g_ov].ci < a) a = g_spec.over[g_ov].ci;
  } else if (g_mem_next < a) {
    a = g_mem_next;
  }
  if (self && self->run_since + 40000 < a) a = self->run_since + 40000;
  g_attn = a <= ci ? ci + 1 : a;
}

static inline void check_limit() {
  if (__builtin_expect(ci >= g_step_limit, 0)) {
    char buf[1500];
    int n = snprintf(buf, sizeof(buf),
                     "no progress within %llu simulated steps;",
                     (unsigned long long)g_step_limit);
    for (int i = 0; i < g_nthreads && n < 1300; ++i)
      if (g_threads[i].state != S_DONE)
        n += snprintf(buf + n, sizeof(buf) - n, " t%d:%s(%s)", i,
                      g_threads[i].state == S_RUN ? "runnable" : "blocked",
                      g_threads[i].state == S_RUN ? "-" : g_threads[i].why);
    violation("no-progress", buf, 3);
  }
}

struct Guard {
  Guard() { if (self) self->nopre++; }
  ~Guard() { if (self) self->nopre--; }
};

bool active() { return g_active && self; }
Config &config() { return g_cfg; }
void set_step_limit(uint64_t s) { g_step_limit = s; set_attn(); }
void set_nprocs(int n) { g_nprocs = n; }

uint32_t choose(uint32_t n) {
  if (n <= 1 || !active()) return 0;
  Guard g;
  ++ci;
  check_limit();
  uint32_t v = g_spec.replay ? replay_value(K_OP) % n
                             : static_cast<uint32_t>(rnd() % n);
  if (v) record(K_OP, v);
  set_attn();
  return v;
}
bool chance(uint32_t permille) {
  if (!permille || !active()) return false;
  Guard g;
  ++ci;
  check_limit();
  bool v = g_spec.replay ? replay_value(K_OP) != 0 : rnd() % 1000 < permille;
  if (v) record(K_OP, 1);
  set_attn();
  return v;
}
uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
void count_fault(Fault f) { rb->faults[f]++; mix(rb->sched_hash, 0x8000 + (uint64_t)f); mix(rb->sched_hash, ci); }
uint64_t fault_count(Fault f) { return rb->faults[f]; }
bool fault(Fault f, uint32_t permille) {
  if (!chance(permille)) return false;
  Guard g;
  count_fault(f);
  tracef("fault %s", fault_name(f));
  return true;
}
void probe(const char *name) {
  if (!active()) return;
  Guard g;
  for (int i = 0; i < rb->nprobes; ++i)
    if (!strncmp(rb->probes[i].name, name, 39)) { rb->probes[i].n++; return; }
  if (rb->nprobes < kMaxProbes) {
    snprintf(rb->probes[rb->nprobes].name, 40, "%s", name);
    rb->probes[rb->nprobes++].n = 1;
  }
}
void event(const char *fmt, ...) {
  if (!active()) return;
  Guard g;
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (n > 511) n = 511;
  for (int i = 0; i < n; ++i) mix(rb->hash, (unsigned char)buf[i]);
  mix(rb->hash, g_now);
  rb->events++;
  ++g_seq;
  tracef("%s", buf);
}
uint64_t now() { return g_now; }
uint64_t wall() { return g_now + g_rt_off; }
uint64_t seqno() { return ++g_seq; }
int tid() { return self ? self->id : -1; }
NoPreempt::NoPreempt() { if (self) self->nopre++; }
NoPreempt::~NoPreempt() { if (self) self->nopre--; }
AllocFaults::AllocFaults(uint32_t p) : old(g_alloc_p) { g_alloc_p = p; }
AllocFaults::~AllocFaults() { g_alloc_p = old; }

const char *fault_name(int f) {
  static const char *n[] = {
    "preemption", "thread_stall", "time_leap", "spurious_cv_wake",
    "spurious_futex_return", "weak_cas_failure", "late_wakeup", "alloc_failure",
    "net_delay", "net_split", "short_write", "short_read", "eagain",
    "socket_eintr", "conn_reset", "peer_fin", "conn_refused", "connect_delay",
    "accept_error", "partition", "dup", "drop", "reorder",
    "garbage_bytes", "poll_eintr", "poll_spurious",
    "fs_short_write", "fs_error", "fs_slow", "crash",
    "clock_jump", "thread_create_failure", "task_throws", "shutdown_race",
    "fs_read_error", "fs_short_read", "fs_open_error", "fs_eintr",
  };
  static_assert(sizeof(n) / sizeof(n[0]) == F_COUNT);
  return n[f];
}

// ------------------------------------------------------------------ switching
static void futex_wait_real(int *w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
    raw_syscall(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void futex_wake_real(int *w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1);
}

static inline uint64_t eff_deadline(const Thread &t) {
  if (t.deadline == kNever) return kNever;
  if (!t.rt_clock) return t.deadline;
  int64_t d = (int64_t)t.deadline - g_rt_off;
  return d < 0 ? 0 : (uint64_t)d;
}
static inline bool runnable(const Thread &t) {
  return t.state == S_RUN || (t.state == S_BLOCK && eff_deadline(t) <= g_now);
}
static uint64_t next_deadline() {
  uint64_t d = kNever;
  for (int i = 0; i < g_nthreads; ++i)
    if (g_threads[i].state == S_BLOCK) {
      uint64_t e = eff_deadline(g_threads[i]);
      if (e > g_now && e < d) d = e;
    }
  for (int i = 0; i < g_nev; ++i)
    if (g_evs[i].when < d) d = g_evs[i].when;
  return d;
}

static void switch_to(Thread *t, bool exiting) {
  Thread *me = self;
  if (t == me) { return; }
  rb->switches++;
  mix(rb->sched_hash, (uint64_t(t->id) << 48) ^ ci);
  mix(rb->hash, (uint64_t(t->id) << 48) ^ ci);
  if (g_spec.verbose) tracef("switch t%d -> t%d", me->id, t->id);
  if (t->state == S_BLOCK) { t->woken = false; t->state = S_RUN; t->key = nullptr; }
  t->run_since = ci;
  futex_wake_real(&t->go);
  if (!exiting) futex_wait_real(&me->go);
}

static void deadlock() {
  char buf[2000];
  int n = snprintf(buf, sizeof(buf), "every thread is blocked forever:");
  for (int i = 0; i < g_nthreads && n < 1800; ++i)
    if (g_threads[i].state != S_DONE)
      n += snprintf(buf + n, sizeof(buf) - n, " t%d:%s", i, g_threads[i].why);
  violation("hang", buf, 3);
}

// default (boring) successor of `me`: round robin by id
static Thread *rr_next(int me, bool allow_self) {
  for (int k = 1; k <= g_nthreads; ++k) {
    Thread &t = g_threads[(me + k) % g_nthreads];
    if (t.id == me && !allow_self) continue;
    if (runnable(t)) return &t;
  }
  return nullptr;
}
static Thread *random_runnable(int except) {
  int c[kMaxThreads], n = 0;
  for (int i = 0; i < g_nthreads; ++i)
    if (i != except && runnable(g_threads[i])) c[n++] = i;
  return n ? &g_threads[c[rnd() % n]] : nullptr;
}
static Thread *best_prio(int except) {
  Thread *b = nullptr;
  for (int i = 0; i < g_nthreads; ++i)
    if (i != except && runnable(g_threads[i]) &&
        (!b || g_threads[i].prio > b->prio))
      b = &g_threads[i];
  return b;
}

// The current thread cannot (or does not want to) continue: pick a successor.
static void reschedule(bool exiting, bool self_ok) {
  Thread *me = self;
  for (;;) {
    run_due_events();
    ++ci;
    check_limit();
    Thread *def = rr_next(me->id, self_ok && !exiting);
    if (!def && runnable(*me) && !exiting) def = me;
    if (!def) {
      uint64_t d = next_deadline();
      if (d == kNever) deadlock();
      g_now = d;
      continue;
    }
    Thread *t = def;
    if (g_spec.replay) {
      uint32_t v = replay_value(K_PICK);
      if (v && v - 1 < (uint32_t)g_nthreads && runnable(g_threads[v - 1]) &&
          !(exiting && (int)(v - 1) == me->id))
        t = &g_threads[v - 1];
    } else {
      int ex = (exiting || !self_ok) && def != me ? me->id : -1;
      if (g_cfg.policy == 1) t = best_prio(ex);
      else if (g_cfg.policy == 2 && rnd() % 4) t = def;
      else t = random_runnable(ex);
      if (!t) t = def;
    }
    if (t != def) record(K_PICK, t->id + 1);
    if (t == me) {
      if (me->state == S_BLOCK) { me->woken = false; me->state = S_RUN; me->key = nullptr; }
      me->run_since = ci;
      set_attn();
      return;
    }
    switch_to(t, exiting);
    if (!exiting) { set_attn(); }
    return;
  }
}

static void do_stall(uint64_t ns) {
  Thread *me = self;
  me->state = S_BLOCK;
  me->key = me;
  me->why = "stalled";
  me->rt_clock = false;
  me->deadline = g_now + ns;
  reschedule(false, false);
}

// A preemption point; `sync` = synchronisation operation (always eligible).
static void __attribute__((noinline)) point_slow(bool sync) {
  Thread *me = self;
  me->nopre++;
  check_limit();
  if (g_nev && sync) run_due_events();
  Thread *t = nullptr;
  bool forced = ci - me->run_since > 40000;
  if (g_spec.replay) {
    uint32_t v;
    if ((v = replay_value(K_STALL))) {
      record(K_STALL, v);
      rb->faults[F_STALL]++;
      do_stall((uint64_t)v * 1000);
      me->nopre--;
      return;
    }
    if ((v = replay_value(K_LEAP))) {
      uint64_t d = next_deadline();
      if (d != kNever && d > g_now) {
        record(K_LEAP, 1);
        rb->faults[F_LEAP]++;
        g_now = d;
      }
    }
    if ((v = replay_value(K_SCHED)) && v - 1 < (uint32_t)g_nthreads &&
        runnable(g_threads[v - 1]) && (int)v - 1 != me->id)
      t = &g_threads[v - 1];
  } else {
    bool want = false;
    if (sync) {
      if (g_cfg.p_stall || g_cfg.p_leap) {
        uint32_t r = rnd() % 100000;
        if (r < g_cfg.p_stall) {
          uint64_t us = logu(0, 17);
          record(K_STALL, us);
          rb->faults[F_STALL]++;
          do_stall(us * 1000);
          me->nopre--;
          return;
        }
        if (r < g_cfg.p_stall + g_cfg.p_leap) {
          uint64_t d = next_deadline();
          if (d != kNever && d > g_now && d < g_now + 30000000000ull) {
            record(K_LEAP, 1);
            rb->faults[F_LEAP]++;
            g_now = d;
          }
        }
      }
      if (g_cfg.policy == 0) want = rnd() % 1000 < g_cfg.p_switch;
    }
    if (g_cfg.policy != 0 && ci >= g_next_change) {
      if (g_cfg.policy == 1) {
        me->prio = --g_low_prio;
        g_next_change = ci + logu(4, 14);
      } else {
        want = true;
        g_next_change = ci + logu(3, 13);
      }
    }
    if (!sync && ci >= g_mem_next) {
      g_mem_next = g_cfg.mem_gap ? ci + 1 + rnd() % (2 * g_cfg.mem_gap) : kNever;
      want = true;
    }
    if (g_cfg.policy == 1) {
      if (want && !sync) { if (rnd() % 3 == 0) me->prio = --g_low_prio; }
      t = best_prio(-1);
      if (t == me) t = nullptr;
    } else if (want) {
      t = random_runnable(me->id);
    }
  }
  if (t) {
    record(K_SCHED, t->id + 1);
    rb->faults[F_PREEMPT]++;
    switch_to(t, false);
  } else if (forced) {
    // fairness: nobody may spin forever while others are runnable
    if (g_cfg.policy == 1) me->prio = --g_low_prio;
    Thread *n = rr_next(me->id, false);
    if (n) switch_to(n, false);
    me->run_since = ci;
    g_now += 1000000;   // a spinner burns real time
  }
  me->nopre--;
  set_attn();
}

void sync_point() {
  Thread *me = self;
  if (!g_active || !me || me->nopre) return;
  ++ci;
  ++rb->syncs;
  g_now += 50;
  point_slow(true);
}

void yield() {
  Thread *me = self;
  if (!g_active || !me || me->nopre) return;
  me->nopre++;
  g_now += 500;
  if (g_cfg.policy == 1 && !g_spec.replay) me->prio = --g_low_prio;
  reschedule(false, false);
  me->nopre--;
}

// ------------------------------------------------------------------ blocking
static bool block_full(const void *key, const char *why, uint64_t deadline, bool rt) {
  Thread *me = self;
  me->nopre++;
  me->state = S_BLOCK;
  me->key = key;
  me->why = why;
  me->deadline = deadline;
  me->rt_clock = rt;
  me->woken = false;
  if (deadline != kNever && fault(F_LATE_WAKE, g_cfg.p_late))
    me->deadline += 1000ull * (1 + choose(20000));
  reschedule(false, false);
  bool w = me->woken;
  me->woken = false;
  me->nopre--;
  return w;
}
static void wake_thread(Thread &t) {
  t.state = S_RUN;
  t.key = nullptr;
  t.woken = true;
}
bool block_on(const void *key, uint64_t deadline) {
  return block_full(key, "io", deadline, false);
}
static int wake_key(const void *key, int n, bool rnd_order) {
  int woke = 0;
  while (woke < n) {
    int c[kMaxThreads], k = 0;
    for (int i = 0; i < g_nthreads; ++i)
      if (g_threads[i].state == S_BLOCK && g_threads[i].key == key) c[k++] = i;
    if (!k) break;
    int pick = 0;
    if (rnd_order && k > 1 && n < k) pick = choose(k);
    wake_thread(g_threads[c[pick]]);
    ++woke;
  }
  return woke;
}
void wake(const void *key, int n) { Guard g; wake_key(key, n, true); }

void sleep_ns(uint64_t ns) {
  if (!active()) return;
  uint64_t d = g_now + (ns ? ns : 1);
  do {
    block_full(self, "sleep", d, false);
  } while (g_now < d);
}
bool wait_until(const std::function<bool()> &pred, uint64_t max_ns, uint64_t poll) {
  uint64_t end = g_now + max_ns;
  for (;;) {
    {
      Guard g;
      if (pred()) return true;
    }
    if (g_now >= end) return false;
    sleep_ns(poll);
  }
}
void clock_jump(int64_t d) {
  g_rt_off += d;
  count_fault(F_CLOCK_JUMP);
  event("clock jump %+lld ms", (long long)(d / 1000000));
}

void at(uint64_t when, std::function<void()> fn) {
  Guard g;
  if (g_nev >= 8192) internal_error("event queue full");
  g_evs[g_nev++] = {when, ++g_evseq, new std::function<void()>(std::move(fn))};
}
static void run_due_events() {
  Guard g;
  for (;;) {
    int b = -1;
    for (int i = 0; i < g_nev; ++i)
      if (g_evs[i].when <= g_now &&
          (b < 0 || g_evs[i].when < g_evs[b].when ||
           (g_evs[i].when == g_evs[b].when && g_evs[i].seq < g_evs[b].seq)))
        b = i;
    if (b < 0) return;
    auto *fn = g_evs[b].fn;
    g_evs[b] = g_evs[--g_nev];
    (*fn)();
    delete fn;
  }
}

// ------------------------------------------------------------------ heap
// Bump arena with a shadow byte per 16-byte granule.  While a run is active
// nothing freed is ever reused, so every access to a freed block is detected:
//  0 unmapped/redzone, 16 fully valid, 1..15 first k bytes valid, 0xFD freed,
//  0xFA header.
static char *g_brk = nullptr;
static int g_heap_lock = 0;
struct Hdr { uint64_t size; uint32_t magic; uint32_t pad; };
constexpr uint32_t kMagicLive = 0x51AB51AB, kMagicFree = 0xDEADDEAD;
struct FreeNode { FreeNode *next; };
static FreeNode *g_free[64];
static uint64_t g_live = 0, g_mark = 0, g_allocs = 0;

static void heap_init() {
  if (g_brk) return;
  void *a = mmap(kArenaBase, kArenaSize, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *s = mmap(kShadowBase, kArenaSize / 16, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != kArenaBase || s != kShadowBase) {
    const char m[] = "sim: cannot map arena\n";
    raw_syscall(SYS_write, 2, (long)m, sizeof(m) - 1);
    raw_syscall(SYS_exit_group, 99);
  }
  g_brk = kArenaBase + 4096;
}
static inline void hlock() {
  while (__atomic_exchange_n(&g_heap_lock, 1, __ATOMIC_ACQUIRE))
    raw_syscall(SYS_sched_yield);
}
static inline void hunlock() { __atomic_store_n(&g_heap_lock, 0, __ATOMIC_RELEASE); }
static inline uint8_t *shadow(const void *p) {
  return kShadowBase + (((uintptr_t)p - (uintptr_t)kArenaBase) >> 4);
}
static inline bool in_arena(const void *p) {
  return (uintptr_t)p - (uintptr_t)kArenaBase < kArenaSize;
}
static int size_class(size_t n) { int c = 0; size_t s = 16; while (s < n) { s <<= 1; ++c; } return c; }

static void *heap_alloc(size_t n, size_t align) {
  hlock();
  heap_init();
  if (align < 16) align = 16;
  char *p = nullptr;
  if (!g_active && align == 16) {
    int c = size_class(n ? n : 1);
    if (g_free[c]) { p = (char *)g_free[c]; g_free[c] = g_free[c]->next; }
  }
  if (!p) {
    size_t room = g_active ? n : ((size_t)16 << size_class(n ? n : 1));
    uintptr_t u = (uintptr_t)g_brk + sizeof(Hdr);
    u = (u + align - 1) & ~(uintptr_t)(align - 1);
    p = (char *)u;
    char *end = p + ((room + 15) & ~(size_t)15) + 16;   // trailing redzone
    if (end > kArenaBase + kArenaSize - (64 << 20)) {
      hunlock();
      return nullptr;
    }
    g_brk = end;
  }
  Hdr *h = (Hdr *)p - 1;
  h->size = n;
  h->magic = kMagicLive;
  *shadow(h) = 0xFA;
  uint8_t *s = shadow(p);
  size_t full = n / 16;
  memset(s, 16, full);
  if (n % 16) s[full] = n % 16;
  ++g_live;
  ++g_allocs;
  if (g_active && n <= 65536) memset(p, 0xCD, n);
  hunlock();
  return p;
}
static void heap_free(void *p) {
  if (!p) return;
  if (!in_arena(p)) {
    if (active()) fail("bad-free", "free of a pointer that was never allocated");
    return;
  }
  Hdr *h = (Hdr *)p - 1;
  if (h->magic != kMagicLive || *shadow(p) == 0xFD) {
    if (h->magic == kMagicFree) {
      if (active()) fail("double-free", "block freed twice");
    } else if (active()) fail("bad-free", "free of an interior or corrupt pointer");
    return;
  }
  hlock();
  h->magic = kMagicFree;
  size_t g = (h->size + 15) / 16;
  memset(shadow(p), 0xFD, g);
  --g_live;
  if (!g_active) {
    int c = size_class(h->size ? h->size : 1);
    bool aligned_plain = true;
    // blocks allocated with a size class can be reused only outside runs
    if (aligned_plain) {
      FreeNode *f = (FreeNode *)p;
      f->next = g_free[c];
      g_free[c] = f;
    }
  }
  hunlock();
}
bool heap_is_live(const void *p) { return in_arena(p) && *shadow(p) && *shadow(p) <= 16; }
uint64_t heap_live_blocks() { return g_live; }
void heap_mark() { g_mark = g_live; }
uint64_t heap_live_since_mark() { return g_live - g_mark; }

static void __attribute__((noinline)) bad_access(const void *p, size_t n, bool w) {
  Thread *me = self;
  me->nopre++;
  uint8_t s = *shadow(p);
  if (s > 0 && s <= 16) s = shadow((const char *)p + n - 1)[0];
  const char *cls = s == 0xFD ? "use-after-free" : "heap-overflow";
  char buf[200];
  snprintf(buf, sizeof(buf), "%s of %zu bytes at heap+%#zx which is %s",
           w ? "write" : "read", n, (size_t)((char *)p - kArenaBase),
           s == 0xFD ? "already freed" : "outside any live block");
  violation(cls, buf, 3);
}
static inline void check_mem(const void *p, size_t n, bool w) {
  if (!in_arena(p)) return;
  const uint8_t *s = shadow(p);
  size_t off = (uintptr_t)p & 15;
  if (__builtin_expect(off + n <= 16, 1)) {
    if (__builtin_expect(*s > 16 || off + n > *s, 0)) bad_access(p, n, w);
  } else {
    const uint8_t *e = shadow((const char *)p + n - 1);
    if (*s != 16) bad_access(p, n, w);
    for (const uint8_t *q = s + 1; q < e; ++q)
      if (*q != 16) bad_access(p, n, w);
    size_t last = ((uintptr_t)p + n - 1) & 15;
    if (*e > 16 || last >= *e) bad_access(p, n, w);
  }
}
static inline void mem_hook(const void *p, size_t n, bool w) {
  Thread *me = self;
  if (!g_active || !me || me->nopre) return;
  check_mem(p, n, w);
  if (__builtin_expect(++ci >= g_attn, 0)) {
    point_slow(false);
    check_mem(p, n, w);   // the world may have changed while we were away
  }
}

// ------------------------------------------------------------------ threads
static pthread_key_t g_key;
static int g_done_flag = 0;

static void thread_finish(void *p) {
  Thread *t = static_cast<Thread *>(p);
  if (!g_active || self != t) return;
  t->nopre++;
  t->state = S_DONE;
  wake_key(t, INT_MAX, false);
  ++g_seq;
  reschedule(true, false);
}

static void setup_altstack(Thread *t) {
  stack_t ss{};
  ss.ss_sp = t->altstack;
  ss.ss_size = sizeof(t->altstack);
  sigaltstack(&ss, nullptr);
}

static void *tramp(void *p) {
  Thread *t = static_cast<Thread *>(p);
  futex_wait_real(&t->go);
  self = t;
  setup_altstack(t);
  pthread_setspecific(g_key, t);
  t->run_since = ci;
  set_attn();
  t->nopre = 0;
  t->ret = t->fn(t->arg);
  return t->ret;
}

static Thread *spawn(void *(*fn)(void *), void *arg) {
  if (g_nthreads >= kMaxThreads) internal_error("too many simulated threads");
  Thread *t = &g_threads[g_nthreads];
  memset(t, 0, sizeof(*t) - sizeof(t->altstack));
  t->id = g_nthreads++;
  t->state = S_RUN;
  t->deadline = kNever;
  t->fn = fn;
  t->arg = arg;
  t->why = "";
  t->nopre = 1;
  t->prio = g_spec.replay ? 0 : (int64_t)(rnd() % 1000000) + 1;
  char *stk = kStackBase + (size_t)t->id * (kStackSize + 4096) + 4096;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, stk, kStackSize);
  auto rc = REAL(pthread_create)(&t->real, &a, tramp, t);
  pthread_attr_destroy(&a);
  if (rc) internal_error("real pthread_create failed");
  return t;
}

// ------------------------------------------------------------------ crashes
static void on_signal(int sig) {
  if (sig == SIGXCPU) {
    if (!g_active || g_failing || !self) raw_syscall(SYS_exit_group, 12);
    rb->hash = 0;
    violation("wedged", "a thread burns CPU for ever without reaching any scheduling point", 3);
  }
  const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT"
    : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL";
  if (!self) raw_syscall(SYS_exit_group, 12);
  char b[64];
  snprintf(b, sizeof(b), "the process died with %s", n);
  violation("crash", b, 3);
}
static void on_terminate() {
  char buf[600] = "std::terminate called";
  if (auto t = abi::__cxa_current_exception_type()) {
    try { throw; }
    catch (const std::exception &e) {
      snprintf(buf, sizeof(buf), "uncaught exception %s: %s", t->name(), e.what());
    } catch (...) {
      snprintf(buf, sizeof(buf), "uncaught exception %s", t->name());
    }
  }
  violation("terminate", buf, 3);
}

// ------------------------------------------------------------------ registry
static Scenario g_scn[128];
static int g_nscn;
Registrar::Registrar(const char *name, void (*fn)(), uint64_t lim) {
  g_scn[g_nscn++] = {name, fn, lim};
}
const Scenario *find_scenario(const char *name) {
  for (int i = 0; i < g_nscn; ++i)
    if (!strcmp(g_scn[i].name, name)) return &g_scn[i];
  return nullptr;
}
int scenario_count() { return g_nscn; }
const Scenario *scenario_at(int i) { return &g_scn[i]; }

static void *scn_main(void *) {
  g_spec.scn->fn();
  self->nopre++;
  rb->allocs = g_allocs;
  finish(1);
  return nullptr;
}

void init_process() {
  void *bt[4];
  backtrace(bt, 4);
  (void)REAL(pthread_create);
  void *s = mmap(kStackBase, (kStackSize + 4096) * (size_t)kMaxThreads,
                 PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (s != kStackBase) { fprintf(stderr, "sim: cannot map stacks\n"); exit(99); }
  // Touch lazily bound symbols so that resolving them later cannot matter.
  (void)REAL(pthread_mutex_lock); (void)REAL(pthread_mutex_unlock);
  (void)REAL(pthread_join); (void)REAL(clock_gettime);
  tzset();
  pthread_key_create(&g_key, thread_finish);
}

void run_child(const RunSpec &spec, ResultBlock *r) {
  rb = r;
  g_spec = spec;
  g_nthreads = 0;
  g_now = 1000000000ull;
  ci = 0;
  g_step_limit = spec.scn->step_limit;
  uint64_t x = spec.seed * 0x2545F4914F6CDD1Dull + 0x1234567;
  g_rng[0] = splitmix(x);
  g_rng[1] = splitmix(x);
  // No output of the code under test reaches the real descriptors.
  g_saved_stderr = dup(2);
  int nul = open("/dev/null", O_RDWR);
  if (nul >= 0) { dup2(nul, 0); dup2(nul, 1); if (!g_spec.verbose || !getenv("SIM_STDERR")) dup2(nul, 2); close(nul); }
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
  struct rlimit rl{30, 35};
  setrlimit(RLIMIT_CPU, &rl);
  signal(SIGPIPE, SIG_IGN);
  std::set_terminate(on_terminate);
  net_reset();
  fs_reset();
  // swarm: the scheduling configuration is drawn from the seed (also when a
  // choice list is replayed, so that both ask the same questions).
  g_cfg = Config{};
  g_cfg.policy = rnd() % 3;
  static const uint32_t ps[] = {500, 300, 150, 60, 20};
  g_cfg.p_switch = ps[rnd() % 5];
  static const uint32_t mg[] = {0, 0, 0, 8, 40, 200, 1500};
  g_cfg.mem_gap = mg[rnd() % 7];
  g_cfg.p_stall = rnd() % 2 ? 0 : (rnd() % 2 ? 200 : 1500);
  g_cfg.p_leap = rnd() % 3 ? 0 : (rnd() % 2 ? 200 : 2000);
  g_cfg.p_spurious = rnd() % 3 ? 0 : 50;
  g_cfg.p_caswk = rnd() % 3 ? 0 : 50;
  g_cfg.p_late = rnd() % 2 ? 0 : 100;
  g_next_change = logu(4, 13);
  g_mem_next = g_cfg.mem_gap ? 1 + rnd() % (2 * g_cfg.mem_gap) : kNever;
  Thread *t = spawn(scn_main, nullptr);
  sigset_t xc;
  sigemptyset(&xc);
  sigaddset(&xc, SIGXCPU);
  pthread_sigmask(SIG_BLOCK, &xc, nullptr);   // leave it to simulated threads
  // Addresses, too, must not depend on what this process did before.
  heap_init();
  { constexpr size_t k = 64u << 20; size_t used = (size_t)(g_brk - kArenaBase); g_brk = kArenaBase + (used + k - 1) / k * k; }
  g_active = true;
  futex_wake_real(&t->go);
  int never = 0;
  futex_wait_real(&never);
  __builtin_unreachable();
}

}  // namespace sim

using namespace sim;

// ====================================================================== libc
extern "C" {

// ---- heap
static bool alloc_fault() {
  if (!g_alloc_p || !active() || self->nopre) return false;
  if (sim::chance(g_alloc_p)) { sim::count_fault(F_ALLOC_FAIL); return true; }
  return false;
}
void *malloc(size_t n) {
  if (alloc_fault()) { errno = ENOMEM; return nullptr; }
  return heap_alloc(n, 16);
}
void free(void *p) { heap_free(p); }
void *calloc(size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) return nullptr;
  void *p = malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (!n) { free(p); return nullptr; }
  void *q = malloc(n);
  if (!q) return nullptr;
  size_t o = ((Hdr *)p - 1)->size;
  memcpy(q, p, o < n ? o : n);
  free(p);
  return q;
}
void *memalign(size_t a, size_t n) { return heap_alloc(n, a); }
void *aligned_alloc(size_t a, size_t n) { return heap_alloc(n, a); }
int posix_memalign(void **o, size_t a, size_t n) { *o = heap_alloc(n, a); return *o ? 0 : ENOMEM; }
void *valloc(size_t n) { return heap_alloc(n, 4096); }
void *pvalloc(size_t n) { return heap_alloc((n + 4095) & ~4095ul, 4096); }
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)p - 1)->size : 0; }

// ---- wrapped block operations of the code under test (ld --wrap)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (n) { mem_hook(s, n, false); mem_hook(d, n, true); }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (n) { mem_hook(s, n, false); mem_hook(d, n, true); }
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (n) mem_hook(d, n, true);
  return __real_memset(d, c, n);
}

// ---- asserts / exits
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
  if (active()) {
    const char *b = strrchr(f, '/');
    sim::fail("assert", "assertion '%s' failed at %s:%u (%s)", e, b ? b + 1 : f, l, fn);
  }
  fprintf(stderr, "assertion %s failed at %s:%u\n", e, f, l);
  abort();
}

// ---- threads
int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!active()) return REAL(pthread_create)(out, at, fn, arg);
  sync_point();
  self->nopre++;
  if (sim::fault(F_THREAD_FAIL, g_cfg.p_thread_fail)) { self->nopre--; return EAGAIN; }
  Thread *t = spawn(fn, arg);
  t->nopre = 0;
  *out = t->real;
  self->nopre--;
  if (g_spec.verbose) tracef("spawn t%d", t->id);
  sync_point();
  return 0;
}
static Thread *by_real(pthread_t p) {
  for (int i = g_nthreads - 1; i >= 0; --i)
    if (!g_threads[i].joined && pthread_equal(g_threads[i].real, p)) return &g_threads[i];
  return nullptr;
}
int pthread_join(pthread_t p, void **ret) {
  if (!active()) return REAL(pthread_join)(p, ret);
  sync_point();
  Thread *t = by_real(p);
  if (!t) return ESRCH;
  if (t == self) return EDEADLK;
  if (t->detached || t->joined) return EINVAL;
  while (t->state != S_DONE) block_full(t, "join", kNever, false);
  t->joined = true;
  self->nopre++;
  REAL(pthread_join)(p, ret);
  self->nopre--;
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!active()) return REAL(pthread_detach)(p);
  Thread *t = by_real(p);
  if (t) t->detached = true;
  return 0;   // the real thread stays joinable; the process ends with the run
}

// ---- mutexes: state lives in the mutex itself (zero = free)
static inline int &m_owner(pthread_mutex_t *m) { return m->__data.__lock; }
static inline unsigned &m_count(pthread_mutex_t *m) { return m->__data.__count; }
static inline bool m_rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  memset(m, 0, sizeof(*m));
  if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!active()) return REAL(pthread_mutex_trylock)(m);
  sync_point();
  if (!self->nopre) check_mem(m, sizeof(*m), true);
  int me = self->id + 1;
  if (m_owner(m) == 0) { m_owner(m) = me; m_count(m) = 1; return 0; }
  if (m_owner(m) == me && m_rec(m)) { m_count(m)++; return 0; }
  return EBUSY;
}
static void lock_slow(pthread_mutex_t *m) {
  int me = self->id + 1;
  if (m_owner(m) == me) {
    if (m_rec(m)) { m_count(m)++; return; }
    sim::fail("self-deadlock", "a thread locks a mutex it already holds");
  }
  while (m_owner(m) != 0) {
    block_full(m, "mutex", kNever, false);
    if (!self->nopre) check_mem(m, sizeof(*m), true);
  }
  m_owner(m) = me;
  m_count(m) = 1;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!active()) return REAL(pthread_mutex_lock)(m);
  sync_point();
  if (!self->nopre) check_mem(m, sizeof(*m), true);
  lock_slow(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!active()) return REAL(pthread_mutex_unlock)(m);
  if (!self->nopre) check_mem(m, sizeof(*m), true);
  if (m_owner(m) != self->id + 1) {
    if (m_rec(m) || m_owner(m) == 0) return EPERM;
    return EPERM;
  }
  if (--m_count(m)) return 0;
  m_owner(m) = 0;
  wake_key(m, INT_MAX, false);
  sync_point();
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return pthread_mutex_lock(m); }

// ---- condition variables
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof(*c)); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
  if (active() && !self->nopre) check_mem(c, sizeof(*c), true);
  return 0;
}
static int cond_wait_common(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl, bool rt) {
  sync_point();
  if (!self->nopre) check_mem(c, sizeof(*c), true);
  if (m_owner(m) != self->id + 1)
    sim::fail("cv-misuse", "condition wait without holding the mutex");
  unsigned cnt = m_count(m);
  m_owner(m) = 0;
  m_count(m) = 0;
  wake_key(m, INT_MAX, false);
  int rc = 0;
  if (sim::chance(g_cfg.p_spurious)) {
    count_fault(F_SPURIOUS_CV);
    self->nopre++;
    reschedule(false, false);
    self->nopre--;
  } else if (!block_full(c, dl == kNever ? "condvar" : "condvar(timed)", dl, rt)) {
    rc = ETIMEDOUT;
  }
  while (m_owner(m) != 0) block_full(m, "mutex", kNever, false);
  m_owner(m) = self->id + 1;
  m_count(m) = cnt;
  return rc;
}
static uint64_t ts_ns(const struct timespec *t) {
  if (t->tv_sec < 0) return 0;
  if ((uint64_t)t->tv_sec > 17000000000ull) return kNever - 1;
  return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!active()) return REAL(pthread_cond_wait)(c, m);
  return cond_wait_common(c, m, kNever, false);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  if (!active()) return REAL(pthread_cond_timedwait)(c, m, t);
  uint64_t d = ts_ns(t);
  return cond_wait_common(c, m, d == kNever - 1 ? kNever : d, true);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
  if (!active()) return REAL(pthread_cond_clockwait)(c, m, k, t);
  uint64_t d = ts_ns(t);
  return cond_wait_common(c, m, d == kNever - 1 ? kNever : d, k == CLOCK_REALTIME);
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!active()) return REAL(pthread_cond_signal)(c);
  sync_point();
  if (!self->nopre) check_mem(c, sizeof(*c), true);
  self->nopre++;
  wake_key(c, 1, true);
  self->nopre--;
  sync_point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!active()) return REAL(pthread_cond_broadcast)(c);
  sync_point();
  if (!self->nopre) check_mem(c, sizeof(*c), true);
  wake_key(c, INT_MAX, false);
  sync_point();
  return 0;
}

// ---- rwlocks (std::shared_mutex): readers count in __readers, writer in __cur_writer
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof(*l)); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (!active()) return REAL(pthread_rwlock_rdlock)(l);
  sync_point();
  while (l->__data.__cur_writer) block_full(l, "rwlock", kNever, false);
  l->__data.__readers++;
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (!active()) return REAL(pthread_rwlock_wrlock)(l);
  sync_point();
  while (l->__data.__cur_writer || l->__data.__readers) block_full(l, "rwlock", kNever, false);
  l->__data.__cur_writer = self->id + 1;
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  if (!active()) return REAL(pthread_rwlock_tryrdlock)(l);
  sync_point();
  if (l->__data.__cur_writer) return EBUSY;
  l->__data.__readers++;
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  if (!active()) return REAL(pthread_rwlock_trywrlock)(l);
  sync_point();
  if (l->__data.__cur_writer || l->__data.__readers) return EBUSY;
  l->__data.__cur_writer = self->id + 1;
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!active()) return REAL(pthread_rwlock_unlock)(l);
  if (l->__data.__cur_writer) l->__data.__cur_writer = 0;
  else if (l->__data.__readers) l->__data.__readers--;
  wake_key(l, INT_MAX, false);
  sync_point();
  return 0;
}

int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!active()) return REAL(pthread_once)(o, fn);
  sync_point();
  for (;;) {
    if (*o == 2) return 0;
    if (*o == 0) break;
    block_full(o, "once", kNever, false);
  }
  *o = 1;
  try { fn(); } catch (...) {
    *o = 0;
    wake_key(o, INT_MAX, false);
    throw;
  }
  *o = 2;
  wake_key(o, INT_MAX, false);
  return 0;
}

// ---- futex
long syscall(long n, ...) __THROW;
long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long),
       d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && active()) {
    int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    int *w = (int *)a;
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      sync_point();
      self->nopre++;
      int r = wake_key(w, (int)c, true);
      self->nopre--;
      sync_point();
      return r;
    }
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sync_point();
      if (!self->nopre) check_mem(w, 4, false);
      if (*w != (int)c) { errno = EAGAIN; return -1; }
      uint64_t dl = kNever;
      bool rt = false;
      if (d) {
        const struct timespec *ts = (const struct timespec *)d;
        if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec > 999999999) { errno = EINVAL; return -1; }
        dl = ts_ns(ts);
        if (op == FUTEX_WAIT) dl = dl > kNever - g_now ? kNever : dl + g_now;
        else { rt = ((int)b & FUTEX_CLOCK_REALTIME) != 0; if (dl == kNever - 1) dl = kNever; }
      }
      if (sim::chance(g_cfg.p_spurious)) {
        count_fault(F_SPURIOUS_FUTEX);
        self->nopre++;
        reschedule(false, false);
        self->nopre--;
        errno = EINTR;
        return -1;
      }
      if (!block_full(w, dl == kNever ? "futex" : "futex(timed)", dl, rt)) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    sim::fail("unsupported", "futex op %d", op);
  }
  if (n == SYS_gettid && active()) return 1000 + self->id;
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

// ---- clocks and sleeping
int clock_gettime(clockid_t k, struct timespec *ts) noexcept {
  if (!active()) {
    long r = raw_syscall(SYS_clock_gettime, k, (long)ts);
    return r ? -1 : 0;
  }
  if (!self->nopre) { g_now += 100; sync_point(); }
  uint64_t t = (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) ? sim::wall() : g_now;
  ts->tv_sec = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *o) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec *ts, struct timespec *rem) {
  if (!active()) { long r = raw_syscall(SYS_nanosleep, (long)ts, (long)rem); if (r < 0) { errno = -r; return -1; } return 0; }
  sim::sleep_ns(ts_ns(ts));
  return 0;
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec *ts, struct timespec *rem) {
  if (!active()) return -(int)raw_syscall(SYS_clock_nanosleep, k, fl, (long)ts, (long)rem);
  uint64_t d = ts_ns(ts);
  if (fl & TIMER_ABSTIME) {
    bool rt = k == CLOCK_REALTIME;
    uint64_t base = rt ? sim::wall() : g_now;
    if (d <= base) { sync_point(); return 0; }
    sim::sleep_ns(d - base);
  } else sim::sleep_ns(d);
  return 0;
}
int usleep(useconds_t us) {
  struct timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) { struct timespec ts{(time_t)s, 0}; nanosleep(&ts, nullptr); return 0; }
int sched_yield() noexcept {
  if (!active()) { raw_syscall(SYS_sched_yield); return 0; }
  sim::yield();
  return 0;
}
int get_nprocs() noexcept { return g_nprocs; }
pid_t getpid() noexcept { if (active()) return sim::g_pid; return (pid_t)raw_syscall(SYS_getpid); }
int gethostname(char *b, size_t n) noexcept {
  if (!active()) return REAL(gethostname)(b, n);
  snprintf(b, n, "simhost");
  return 0;
}
int pthread_setname_np(pthread_t, const char *) noexcept { return 0; }
int rand() noexcept { return active() ? (int)(sim::choose(0x7fffffff)) : REAL(rand)(); }
long random() noexcept { return active() ? (long)(sim::choose(0x7fffffff)) : REAL(random)(); }
ssize_t getrandom(void *b, size_t n, unsigned) {
  for (size_t i = 0; i < n; ++i) ((uint8_t *)b)[i] = (uint8_t)sim::choose(256);
  return n;
}
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }

// ================================================================ tsan hooks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void *a) { mem_hook(a, n, false); } \
  void __tsan_write##n(void *a) { mem_hook(a, n, true); } \
  void __tsan_unaligned_read##n(const void *a) { mem_hook(a, n, false); } \
  void __tsan_unaligned_write##n(void *a) { mem_hook(a, n, true); } \
  void __tsan_volatile_read##n(void *a) { mem_hook(a, n, false); } \
  void __tsan_volatile_write##n(void *a) { mem_hook(a, n, true); } \
  void __tsan_unaligned_volatile_read##n(const void *a) { mem_hook(a, n, false); } \
  void __tsan_unaligned_volatile_write##n(void *a) { mem_hook(a, n, true); } \
  void __tsan_read##n##_pc(void *a, void *) { mem_hook(a, n, false); } \
  void __tsan_write##n##_pc(void *a, void *) { mem_hook(a, n, true); } \
  void __tsan_read_write##n(void *a) { mem_hook(a, n, true); } \
  void __tsan_unaligned_read_write##n(void *a) { mem_hook(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **a, void *) { mem_hook(a, 8, true); }
void __tsan_vptr_read(void **a) { mem_hook(a, 8, false); }
void __tsan_read_range(void *a, size_t n) { if (n) mem_hook(a, n, false); }
void __tsan_write_range(void *a, size_t n) { if (n) mem_hook(a, n, true); }

static inline void a_hook(const volatile void *a, size_t n, bool w) {
  if (!g_active || !self || self->nopre) return;
  check_mem((const void *)a, n, w);
  sync_point();
  check_mem((const void *)a, n, w);
}
typedef unsigned __int128 a128;
#define ATOM(N, T) \
  T __tsan_atomic##N##_load(const volatile T *a, int) { a_hook(a, N / 8, false); return *a; } \
  void __tsan_atomic##N##_store(volatile T *a, T v, int) { a_hook(a, N / 8, true); *a = v; } \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { a_hook(a, N / 8, true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { a_hook(a, N / 8, true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { a_hook(a, N / 8, true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { a_hook(a, N / 8, true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { a_hook(a, N / 8, true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { a_hook(a, N / 8, true); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { a_hook(a, N / 8, true); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { \
    a_hook(a, N / 8, true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { \
    a_hook(a, N / 8, true); T o = *a; \
    if (o == *c) { \
      if (g_active && self && !self->nopre && sim::chance(g_cfg.p_caswk)) { count_fault(F_CAS_WEAK); return 0; } \
      *a = v; return 1; } \
    *c = o; return 0; } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { \
    a_hook(a, N / 8, true); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int)
ATOM(64, unsigned long) ATOM(128, a128)
void __tsan_atomic_thread_fence(int) { sync_point(); }
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"
