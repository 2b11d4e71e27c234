// The engine kernel: its executors and timers as one whole, from construction to destruction at any instant.
#include "common.h"
#include "plain/basic/logger.h"
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/engine/kernel.h"
#include "plain/engine/timer.h"
#include "plain/engine/timer_queue.h"

using namespace scen;
using namespace plain;
using namespace plain::concurrency;

namespace {
struct Pool { int limit = 1 << 20, running = 0, peak = 0; };
struct KW {
  Kernel *k = nullptr;
  std::vector<std::shared_ptr<executor::Basic>> exs;   // all there ever were
  std::vector<Pool> pools;
  std::vector<std::shared_ptr<executor::Manual>> manuals;
  std::vector<std::unique_ptr<Timer>> timers;
  int issued = 0, ran = 0, dropped = 0, live = 0, fired = 0, made_late = 0;
  int started = 0, terminated = 0;
  bool ending = false, ended = false;
};
KW *K;
struct Tok {
  bool own = true, ran = false;
  Tok() { sim::NoPreempt g; ++K->live; }
  Tok(Tok &&o) noexcept : ran(o.ran) { o.own = false; }
  Tok(const Tok &) = delete;
  ~Tok() { if (!own) return; sim::NoPreempt g; --K->live; if (!ran) ++K->dropped; }
};
void act(int depth);
void body(Tok &t, int at, int depth) {
  {
    sim::NoPreempt g;
    SIM_CHECK(!t.ran, "task-ran-twice", "a task ran twice");
    SIM_CHECK(!K->ended, "task-ran-after-shutdown", "a task runs after the kernel was destroyed");
    t.ran = true;
    ++K->ran;
    Pool &p = K->pools[at];
    ++p.running;
    SIM_CHECK(p.running <= p.limit, "too-much-concurrency", "%d tasks run on executor %d, its option allows %d", p.running, at, p.limit);
  }
  maybe_pause(3000);
  if (depth > 0) { int n = sim::choose(3); for (int i = 0; i < n; ++i) act(depth - 1); }
  sim::NoPreempt g;
  --K->pools[at].running;
}
int add(std::shared_ptr<executor::Basic> e, int limit) {
  sim::NoPreempt g;
  K->exs.push_back(e);
  Pool p;
  p.limit = limit;
  K->pools.push_back(p);
  return (int)K->exs.size() - 1;
}
void give(int at, int depth) {
  std::shared_ptr<executor::Basic> e;
  { sim::NoPreempt g; ++K->issued; e = K->exs[at]; }
  try {
    if (sim::choose(2)) e->post([t = Tok{}, at, depth]() mutable { body(t, at, depth); });
    else { auto r = e->submit([t = Tok{}, at, depth]() mutable { body(t, at, depth); return 7; }); (void)r; }
  } catch (const std::runtime_error &) {
    sim::NoPreempt g;
    SIM_CHECK(K->ending, "refused-while-open", "a task was refused while the kernel was in use");
  }
}
// What any thread or task may ask of the kernel.
void act(int depth) {
  int n;
  { sim::NoPreempt g; n = (int)K->exs.size(); }
  switch (sim::choose(8)) {
    case 0: {
      auto e = K->k->make_worker_thread_executor();
      int at = add(e, 1);
      { sim::NoPreempt g; if (K->ending) ++K->made_late; }
      give(at, depth);
      break;
    }
    case 1: {
      auto e = K->k->make_manual_executor();
      int at = add(e, 1);
      { sim::NoPreempt g; K->manuals.push_back(e); }
      give(at, depth);
      break;
    }
    case 2: {
      std::shared_ptr<executor::Basic> e;
      { sim::NoPreempt g; e = K->exs[sim::choose(4)]; }
      try {
        auto t = K->k->timer_queue()->make_one_shot_timer(ms(sim::choose(20)), e, [] {
          sim::NoPreempt g;
          SIM_CHECK(!K->ended, "task-ran-after-shutdown", "a timer fires after the kernel was destroyed");
          ++K->fired;
        });
        auto p = std::make_unique<Timer>(std::move(t));
        sim::NoPreempt g;
        K->timers.push_back(std::move(p));
      } catch (const std::runtime_error &) {
        sim::NoPreempt g;
        SIM_CHECK(K->ending, "refused-while-open", "a timer was refused while the kernel was in use");
      }
      break;
    }
    case 3: { int at = 1 + sim::choose(2); int m = 1 + sim::choose(4); for (int i = 0; i < m; ++i) give(at, depth); break; }
    default: give(sim::choose(n), depth);
  }
}
}  // namespace

SCENARIO_STEPS(kernel_life, 20000000) {
  auto wp = std::make_unique<KW>();
  KW &w = *wp;
  K = &w;
  plain::Logger::set_output([](const std::string_view &) {});
  plain::Logger::set_flush([] {});
  engine_option o;
  static const int waits[] = {120000, 2, 15};
  o.max_cpu_threads = 1 + sim::choose(3);
  o.max_background_threads = 1 + sim::choose(4);
  o.max_thread_pool_executor_waiting_time = ms(waits[sim::choose(3)]);
  o.max_background_executor_waiting_time = ms(waits[sim::choose(3)]);
  o.max_timer_queue_waiting_time = ms(waits[sim::choose(3)]);
  o.thread_started_callback = [](std::string_view) { sim::NoPreempt g; ++K->started; };
  o.thread_terminated_callback = [](std::string_view) { sim::NoPreempt g; ++K->terminated; };
  auto k = std::make_unique<Kernel>(o);
  w.k = k.get();
  add(k->inline_executor(), 1 << 20);
  add(k->thread_pool_executor(), (int)o.max_cpu_threads);
  add(k->background_executor(), (int)o.max_background_threads);
  add(k->thread_executor(), 1 << 20);
  SIM_CHECK(k->thread_pool_executor()->max_worker_idle_time() == o.max_thread_pool_executor_waiting_time &&
            k->background_executor()->max_worker_idle_time() == o.max_background_executor_waiting_time &&
            k->timer_queue()->max_worker_idle_time() == o.max_timer_queue_waiting_time, "option-ignored", "an executor's or the timer queue's idle time is not the kernel's option");
  if (sim::choose(4) == 3) {
    // All the threads asked for can work at once.
    for (int at = 1; at <= 2; ++at) {
      int want = w.pools[at].limit;
      auto pi = std::make_shared<int>(0);
      int &in = *pi;
      for (int i = 0; i < want; ++i)
        w.exs[at]->post([pi, want] {
          { sim::NoPreempt g; ++*pi; }
          sim::wait_until([&] { return *pi == want; }, 200 * kSec, kMs);
        });
      SIM_CHECK(patient([&] { return in == want; }), "too-little-concurrency", "%d tasks run at once on executor %d, its option says %d", in, at, want);
    }
    sim::probe("rendezvous");
  }
  {
    std::vector<Thr> ts;
    int n = 1 + sim::choose(2), depth = sim::choose(4);
    for (int i = 0; i < n; ++i) ts.emplace_back([&, depth] { int m = 1 + sim::choose(5); for (int j = 0; j < m; ++j) { maybe_pause(2000); act(depth); } });
    ts.clear();
  }
  if (sim::choose(2)) {
    bool over = false, *po = &over;
    Thr pump([po] {
      while (!*po) {
        std::vector<std::shared_ptr<executor::Manual>> v;
        { sim::NoPreempt g; v = K->manuals; }
        for (auto &m : v) m->loop(100);
        sim::sleep_ns(kMs);
      }
    });
    bool ok = patient([&] { return w.live == 0 && w.ran == w.issued && w.fired == (int)w.timers.size(); });
    { sim::NoPreempt g; over = true; }
    pump.join();
    SIM_CHECK(ok, "task-lost", "%d tasks were given, %d have run; %d of %zu timers have fired", w.issued, w.ran, w.fired, w.timers.size());
    sim::probe("quiesced");
  } else sim::count_fault(sim::F_SHUTDOWN_RACE);
  if (sim::choose(2)) {
    decltype(w.timers) gone;
    { sim::NoPreempt g; gone.swap(w.timers); }
  }
  // The timer queue ends with the kernel too, whoever still has it and whoever runs its timers.
  std::shared_ptr<TimerQueue> tq = sim::choose(2) ? k->timer_queue() : nullptr;
  std::unique_ptr<Timer> outside;
  if (tq) {
    auto ours = std::make_shared<executor::Inline>();
    outside = std::make_unique<Timer>(tq->make_timer(ms(sim::choose(4)), ms(1 + sim::choose(3)), ours, [] {
      sim::NoPreempt g;
      SIM_CHECK(!K->ended, "task-ran-after-shutdown", "a timer fires after the kernel was destroyed");
    }));
    maybe_pause(6000);
  }
  { sim::NoPreempt g; w.ending = true; }
  k.reset();
  { sim::NoPreempt g; w.ended = true; }
  if (tq) {
    SIM_CHECK(tq->shutdown_requested(), "shutdown-flag", "the timer queue is open after its kernel was destroyed");
    bool refused = false;
    try { auto t = tq->make_one_shot_timer(ms(1), std::make_shared<executor::Inline>(), [] {}); } catch (const std::exception &) { refused = true; }
    SIM_CHECK(refused, "accepted-after-shutdown", "the timer queue takes a timer after its kernel was destroyed");
    sim::sleep_ns(10 * kMs);
    outside.reset();
    tq.reset();
    sim::probe("timer_queue_kept");
  }
  if (w.made_late) sim::probe("executor_made_while_ending");
  for (size_t i = 0; i < w.exs.size(); ++i) {
    SIM_CHECK(w.exs[i]->shutdown_requested(), "shutdown-flag", "executor %zu of %zu is open after its kernel was destroyed", i, w.exs.size());
    bool refused = false;
    try { w.exs[i]->post([] { sim::fail("task-ran-after-shutdown", "a task given after the kernel was destroyed runs"); }); } catch (const std::exception &) { refused = true; }
    SIM_CHECK(refused, "accepted-after-shutdown", "executor %zu takes a task after its kernel was destroyed", i);
  }
  SIM_CHECK(w.started == w.terminated, "callback-pairing", "%d threads announced start, %d announced termination", w.started, w.terminated);
  w.timers.clear();
  w.manuals.clear();
  w.exs.clear();
  SIM_CHECK(w.live == 0, "callable-leaked", "%d callables outlive the kernel", w.live);
  SIM_CHECK(w.ran + w.dropped == w.issued, "task-lost", "given %d = ran %d + dropped %d does not hold", w.issued, w.ran, w.dropped);
  sim::sleep_ns(kSec);
}
