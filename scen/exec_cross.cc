// Several executors posting to each other: a task runs on a thread of the
// executor it was posted to, exactly once, whoever posts it.
#include "common.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"

using namespace scen;
using namespace plain::concurrency;

namespace {
struct X {
  std::shared_ptr<executor::Basic> ex;
  char kind;
  int limit, running = 0;
  std::set<int> threads;      // threads that announced themselves
  int started = 0, terminated = 0;
};
struct CW {
  std::vector<X> xs;
  int issued = 0, ran = 0, refused = 0, dropped = 0, live = 0;
  bool shutting = false;
};
CW *C;
struct Tok {
  bool own = true, ran = false;
  Tok() { sim::NoPreempt g; ++C->live; }
  Tok(Tok &&o) noexcept : ran(o.ran) { o.own = false; }
  Tok(const Tok &) = delete;
  ~Tok() {
    if (!own) return;
    sim::NoPreempt g;
    --C->live;
    if (!ran) ++C->dropped;
  }
};
void hop(int to, int left, int seed);
void body(Tok &t, int at, int left, int seed) {
  {
    sim::NoPreempt g;
    X &x = C->xs[at];
    SIM_CHECK(!t.ran, "task-ran-twice", "a hop ran twice");
    t.ran = true;
    ++C->ran;
    ++x.running;
    sim::event("hop %d on x%d(%c)", seed, at, x.kind);
    SIM_CHECK(x.threads.count(sim::tid()), "affinity",
              "a task posted to executor x%d (%c) ran on thread t%d which is not one of its threads", at, x.kind, sim::tid());
    SIM_CHECK(x.running <= x.limit, "too-much-concurrency", "executor x%d (%c) of concurrency %d runs %d tasks",
              at, x.kind, x.limit, x.running);
    if (C->xs.size() > 1) sim::probe("cross_hop");
  }
  maybe_pause(4000);
  if (left) {
    int n = 1 + sim::choose(2);
    for (int i = 0; i < n; ++i) hop(sim::choose(C->xs.size()), left - 1, seed * 2 + i);
  }
  sim::NoPreempt g;
  --C->xs[at].running;
}
void hop(int to, int left, int seed) {
  bool bulk = sim::chance(300);
  auto mk = [to, left, seed](Tok t) {
    return [t = std::move(t), to, left, seed]() mutable { body(t, to, left, seed); };
  };
  int n = bulk ? 1 + sim::choose(4) : 1;
  { sim::NoPreempt g; C->issued += n; }
  try {
    if (!bulk) C->xs[to].ex->post(mk(Tok{}));
    else {
      std::vector<decltype(mk(Tok{}))> v;
      v.reserve(n);
      for (int i = 0; i < n; ++i) v.push_back(mk(Tok{}));
      C->xs[to].ex->bulk_post(std::span(v));
    }
  } catch (const std::runtime_error &) {
    sim::NoPreempt g;
    ++C->refused;
    SIM_CHECK(C->shutting, "refused-while-open", "post refused although nothing was shut down");
  }
}
}  // namespace

SCENARIO(exec_cross) {
  CW c;
  C = &c;
  int nx = 2 + sim::choose(2);
  c.xs.resize(nx);
  for (int i = 0; i < nx; ++i) {
    X &x = c.xs[i];
    auto on_start = [i](std::string_view) { sim::NoPreempt g; C->xs[i].threads.insert(sim::tid()); ++C->xs[i].started; };
    auto on_end = [i](std::string_view) { sim::NoPreempt g; ++C->xs[i].terminated; };
    switch (sim::choose(4)) {
      case 2: x.kind = 'W'; x.limit = 1; x.ex = std::make_shared<executor::WorkerThread>(on_start, on_end); break;
      case 3: x.kind = 'T'; x.limit = 1 << 20; x.ex = std::make_shared<executor::Thread>(on_start, on_end); break;
      default: {
        static const int idle[] = {10000, 2, 15};
        x.kind = 'P'; x.limit = 1 + sim::choose(3);
        x.ex = std::make_shared<executor::ThreadPool>("x" + std::to_string(i), x.limit, ms(idle[sim::choose(3)]), on_start, on_end);
      }
    }
  }
  int nprod = 1 + sim::choose(2), nops = 1 + sim::choose(3), depth = sim::choose(4);
  bool race = sim::choose(3) == 2;
  std::vector<Thr> prod;
  for (int p = 0; p < nprod; ++p)
    prod.emplace_back([&, p] {
      for (int i = 0; i < nops; ++i) { maybe_pause(6000); hop(sim::choose(nx), depth, p * 10 + i + 1); }
    });
  if (!race) {
    prod.clear();
    eventually([&] { return c.ran == c.issued && c.live == 0; }, "task-lost", "every task posted across executors has run");
    sim::probe("quiesced");
  } else { maybe_pause(5000); sim::count_fault(sim::F_SHUTDOWN_RACE); }
  { sim::NoPreempt g; c.shutting = true; }
  for (auto &x : c.xs) x.ex->shutdown();
  prod.clear();
  for (auto &x : c.xs) x.ex.reset();
  SIM_CHECK(c.live == 0, "callable-leaked", "%d callables outlive their executors", c.live);
  SIM_CHECK(c.ran + c.dropped == c.issued, "task-lost", "issued %d = ran %d + dropped %d does not hold", c.issued, c.ran, c.dropped);
  for (auto &x : c.xs)
    SIM_CHECK(x.started == x.terminated, "callback-pairing", "%d threads announced start, %d announced termination", x.started, x.terminated);
}
