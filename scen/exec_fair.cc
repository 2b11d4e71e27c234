// Tasks that enqueue themselves again must not keep other tasks from running.
#include "common.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"

using namespace scen;
using namespace plain::concurrency;

namespace {
struct FW {
  executor::Basic *ex = nullptr;
  bool stop = false;
  int spins = 0, alive = 0, ran = 0;
};
FW *F;
void again() {
  {
    sim::NoPreempt g;
    ++F->spins;
    if (F->stop) { --F->alive; return; }
  }
  if (sim::choose(8) == 7) sim::sleep_ns(1000ull * (1 + sim::choose(50)));
  F->ex->post([] { again(); });
}
}  // namespace

SCENARIO_STEPS(exec_fair, 20000000) {
  FW w;
  F = &w;
  auto &cfg = sim::config();
  cfg.p_stall /= 8;
  int kind = sim::choose(3);
  int threads = kind == 1 ? 1 + sim::choose(3) : 1;
  std::shared_ptr<executor::Basic> ex;
  std::shared_ptr<executor::Manual> man;
  if (kind == 0) ex = std::make_shared<executor::WorkerThread>();
  else if (kind == 1) ex = std::make_shared<executor::ThreadPool>("fair", threads, ms(60000));
  else ex = man = std::make_shared<executor::Manual>();
  w.ex = ex.get();
  w.alive = threads + sim::choose(2);
  int spinners = w.alive, n = 1 + sim::choose(4), m = 1 + sim::choose(3);
  std::unique_ptr<Thr> driver;
  bool done = false;
  if (man)
    driver = std::make_unique<Thr>([&] {
      for (;;) {
        { sim::NoPreempt g; if (done) return; }
        if (sim::choose(2)) man->loop(1 + sim::choose(5)); else man->loop_once_for(ms(1));
      }
    });
  for (int i = 0; i < spinners; ++i) ex->post([] { again(); });
  {
    std::vector<std::unique_ptr<Thr>> ts;
    for (int t = 0; t < n; ++t)
      ts.push_back(std::make_unique<Thr>([&] {
        maybe_pause(500);
        for (int k = 0; k < m; ++k) {
          bool outer = sim::choose(2);
          ex->post([outer, &w] {
            if (outer) { w.ex->post([&w] { sim::NoPreempt g; ++w.ran; }); return; }
            sim::NoPreempt g;
            ++w.ran;
          });
        }
      }));
  }
  bool ok = sim::wait_until([&] { return w.ran == n * m; }, 20 * kSec, kMs);
  if (!ok)
    sim::fail("task-starved", "%d of %d tasks did not run while %d tasks that enqueue themselves again ran %d times (%s)", n * m - w.ran, n * m, spinners, w.spins, kind == 0 ? "worker" : kind == 1 ? "pool" : "manual");
  w.stop = true;
  eventually([&] { return w.alive == 0; }, "task-starved", "the end of the spinning tasks", 20 * kSec);
  done = true;
  driver.reset();
  ex->shutdown();
  sim::probe("fair_done");
}

// An idle pool of n threads runs n tasks at once, whoever gives them.
SCENARIO(exec_par) {
  int n = 2 + sim::choose(4), rounds = 1 + sim::choose(3);
  static const int idle[] = {60000, 1, 5, 50};
  auto ex = std::make_shared<executor::ThreadPool>("par", n, ms(idle[sim::choose(4)]));
  struct Shared { int in = 0, done = 0; } s;
  auto *sp = &s;
  for (int k = 0; k < rounds; ++k) {
    s.in = s.done = 0;
    auto task = [sp, n] {
      { sim::NoPreempt g; ++sp->in; }
      // every one of them waits for all
      bool ok = patient([&] { return sp->in >= n; });
      SIM_CHECK(ok, "no-parallelism", "only %d of %d tasks run at once on an idle pool of %d threads", sp->in, n, n);
      sim::NoPreempt g;
      ++sp->done;
    };
    {
      int givers = 1 + sim::choose(3), left = n;
      std::vector<std::unique_ptr<Thr>> ts;
      for (int g = 0; g < givers; ++g) {
        int m = g == givers - 1 ? left : sim::choose(left + 1);
        left -= m;
        ts.push_back(std::make_unique<Thr>([&, m] {
          for (int i = 0; i < m; ++i) { ex->post(task); maybe_pause(3000); }
        }));
      }
    }
    SIM_CHECK(patient([&] { return s.done == n; }), "no-parallelism", "%d of %d tasks ended", s.done, n);
    // long enough for every worker to wait again, or to end
    auto &c = sim::config();
    c.p_stall = c.p_leap = c.p_late = 0;
    sim::sleep_ns((uint64_t)(2 + sim::choose(200)) * kSec);
  }
  ex->shutdown();
  sim::probe("par_done");
}
