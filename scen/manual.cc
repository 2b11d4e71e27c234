// Manual executor as seen by the threads that drive it: counts, timing, clear.
#include "common.h"
#include "plain/concurrency/executor/manual.h"

using namespace scen;
using namespace plain::concurrency;

namespace {
struct MW {
  int issued = 0;            // submissions begun
  int accepted = 0;          // submissions completed
  int ran = 0, dropped = 0, live = 0, cleared = 0;
  bool shutting = false, down = false;
  std::map<int, int> ran_by; // per driving thread
  bool clearing = false;
  bool one_driver = false, slow = false;
  std::map<int, int> last;   // the last task of each producer that began
  uint64_t deadline = ~0ull; // of the looping call in progress (one driver, calm)
};
MW *M;
struct MTok {
  bool own = true, ran = false;
  MTok() { sim::NoPreempt g; ++M->live; }
  MTok(MTok &&o) noexcept : ran(o.ran) { o.own = false; }
  MTok(const MTok &) = delete;
  ~MTok() {
    if (!own) return;
    sim::NoPreempt g;
    --M->live;
    if (!ran) { ++M->dropped; SIM_CHECK(M->shutting || M->clearing || !M->down, "task-lost", "a queued task was dropped although nobody cleared or shut down"); }
  }
};
}  // namespace

SCENARIO(manual_loop) {
  MW w;
  M = &w;
  auto &cfg = sim::config();
  int mood = sim::choose(3);
  bool calm = mood == 0;
  if (calm) { cfg.p_stall = cfg.p_leap = cfg.p_late = 0; }
  bool jumps = sim::chance(300);
  bool clears = sim::chance(300);
  w.clearing = clears;
  bool will_shut = sim::choose(3) == 1;
  {
    auto ex = std::make_shared<executor::Manual>();
    int ndrive = 1 + sim::choose(2), nprod = 1 + sim::choose(2), nops = 1 + sim::choose(5);
    int nacts = 2 + sim::choose(5);
    w.one_driver = ndrive == 1;
    w.slow = sim::choose(4) == 3;
    bool producers_done = false;
    std::vector<Thr> th;
    auto drive = [&](int acts) {
      int me = sim::tid();
      try {
        for (int a = 0; a < acts; ++a) {
          int before = 0, before_ran = 0, acc0 = 0, ran0 = 0;
          { sim::NoPreempt g; before = w.ran_by[me]; before_ran = w.ran; acc0 = w.accepted; ran0 = w.ran; }
          (void)before_ran;
          uint64_t t0 = sim::now();
          int cnt = 1 + sim::choose(4);
          auto d = ms(sim::choose(4) == 0 ? 0 : 1 + sim::choose(20));
          int op = sim::choose(9);
          size_t got = 0;
          bool looped = false, timed = false;
          if (ndrive == 1 && calm && !jumps) {
            sim::NoPreempt g;
            w.deadline = d.count() && (op == 1 || op == 3 || op == 4 || (op > 7 && !clears)) ? t0 + (uint64_t)(d.count() + 20) * kMs : ~0ull;
          }
          sim::event("drive op %d cnt %d d %lld", op, cnt, (long long)d.count());
          switch (op) {
            case 0: got = ex->loop_once(); cnt = 1; looped = true; break;
            case 1: got = ex->loop_once_for(d); cnt = 1; looped = timed = true; break;
            case 2: got = ex->loop(cnt); looped = true; break;
            case 3: got = ex->loop_for(cnt, d); looped = timed = true; break;
            case 4: got = ex->loop_until(cnt, std::chrono::steady_clock::now() + d); looped = timed = true; break;
            case 5: {
              bool r = ex->wait_for_task_for(d);
              got = r; cnt = 1; timed = true;
              break;
            }
            case 6: got = ex->wait_for_tasks_for(cnt, d); timed = true; break;
            case 7: got = ex->wait_for_tasks_until(cnt, std::chrono::steady_clock::now() + d); timed = true; break;
            default: {
              if (!clears) { got = ex->loop_once_until(std::chrono::steady_clock::now() + d); cnt = 1; looped = timed = true; break; }
              size_t n = ex->clear();
              sim::NoPreempt g;
              w.cleared += (int)n;
              if (n) sim::probe("cleared");
              continue;
            }
          }
          uint64_t el = sim::now() - t0;
          sim::NoPreempt g;
          if (looped) {
            int mine = w.ran_by[me] - before;
            SIM_CHECK((int)got == mine, "loop-count", "a loop call reports %zu tasks but ran %d", got, mine);
            SIM_CHECK((int)got <= cnt, "loop-count", "a loop call for %d tasks ran %zu", cnt, got);
          } else
            SIM_CHECK((int)got <= w.issued, "loop-count", "a wait reports %zu tasks, only %d were ever posted", got, w.issued);
          if (timed && (int)got < cnt && d.count()) {
            SIM_CHECK(el >= (uint64_t)d.count() * kMs, "timeout-early", "a timed call (op %d) of %lld ms gave up after %llu us", op, (long long)d.count(), (unsigned long long)(el / 1000));
            sim::probe("timed_out");
          }
          if (calm && !jumps && timed && !looped)
            SIM_CHECK(el <= (uint64_t)(d.count() + 20) * kMs, "timeout-late", "a timed wait of %lld ms returned after %llu us", (long long)d.count(), (unsigned long long)(el / 1000));
          // alone with the queue: everything accepted before the call is there
          if (ndrive == 1 && !clears && acc0 - ran0 >= cnt && (!looped || !timed || (calm && d.count() > 2 && !w.slow))) {
            SIM_CHECK((int)got >= cnt, "task-not-seen", "%d tasks were queued before the call (op %d, count %d) but it reports %zu", acc0 - ran0, op, cnt, got);
            sim::probe("enough_queued");
          }
        }
        return true;
      } catch (const std::runtime_error &) {
        sim::NoPreempt g;
        SIM_CHECK(w.shutting, "loop-threw", "a call threw although shutdown was not requested");
        return false;
      }
    };
    for (int i = 0; i < ndrive; ++i)
      th.emplace_back([&, i] {
        if (!drive(nacts)) return;
        // keep serving so that everything accepted is run
        for (;;) {
          { sim::NoPreempt g; if (producers_done && (w.accepted == w.ran + w.cleared || w.shutting)) return; }
          if (!drive(1)) return;
          sim::sleep_ns(100000);
        }
      });
    {
      std::vector<Thr> prod;
      for (int p = 0; p < nprod; ++p)
        prod.emplace_back([&, p] {
          int seq = 0;
          for (int i = 0; i < nops; ++i) {
            maybe_pause(20000);
            int n = sim::choose(3) == 2 ? 1 + sim::choose(4) : 1;
            auto mk = [p, &seq] {
              return [t = MTok(), p, no = seq++]() mutable {
                bool pause;
                {
                  sim::NoPreempt g;
                  SIM_CHECK(!t.ran, "task-ran-twice", "a task ran twice");
                  t.ran = true;
                  ++M->ran;
                  ++M->ran_by[sim::tid()];
                  if (M->one_driver) {
                    auto [it, fresh] = M->last.try_emplace(p, -1);
                    SIM_CHECK(it->second < no, "order-inverted", "task %d of a producer begins after its task %d", no, it->second);
                    it->second = no;
                  }
                  SIM_CHECK(sim::now() <= M->deadline, "loop-late", "a timed loop began a task %llu us after its time was up", (unsigned long long)((sim::now() - M->deadline) / 1000));
                  pause = M->slow;
                }
                if (pause) sim::sleep_ns(kMs * (uint64_t)sim::choose(40));
              };
            };
            { sim::NoPreempt g; w.issued += n; }
            try {
              if (n == 1) ex->post(mk());
              else {
                std::vector<decltype(mk())> v;
                v.reserve(n);
                for (int k = 0; k < n; ++k) v.push_back(mk());
                ex->bulk_post(std::span(v));
              }
              sim::NoPreempt g;
              w.accepted += n;
            } catch (const std::runtime_error &) {
              sim::NoPreempt g;
              SIM_CHECK(w.shutting, "refused-while-open", "post refused although shutdown was not requested");
            }
          }
        });
      if (jumps)
        for (int i = 0; i < 3; ++i) {
          sim::sleep_ns(kMs * (1 + sim::choose(8)));
          sim::clock_jump((sim::choose(2) ? 1 : -1) * (int64_t)(1 + sim::choose(60000)) * (int64_t)kMs);
        }
      if (will_shut) {
        maybe_pause(20000);
        // someone blocked without a time limit must be released by shutdown
        Thr waiter([&] {
          try { ex->wait_for_tasks(1000); sim::fail("wait-early", "wait_for_tasks(1000) returned"); }
          catch (const std::runtime_error &) { sim::NoPreempt g; SIM_CHECK(w.shutting, "loop-threw", "wait_for_tasks threw without shutdown"); }
        });
        sim::count_fault(sim::F_SHUTDOWN_RACE);
        maybe_pause(5000);
        { sim::NoPreempt g; w.shutting = true; }
        ex->shutdown();
        uint64_t t0 = sim::now();
        waiter.join();
        (void)t0;
      }
    }
    { sim::NoPreempt g; producers_done = true; }
    th.clear();
    if (!will_shut) {
      SIM_CHECK(w.accepted == w.ran + w.cleared, "task-lost", "accepted %d = ran %d + cleared %d does not hold", w.accepted, w.ran, w.cleared);
      SIM_CHECK(ex->empty() && ex->size() == 0, "task-lost", "queue reports leftovers");
    }
    { sim::NoPreempt g; w.shutting = true; }
    ex->shutdown();
    SIM_CHECK(ex->shutdown_requested(), "shutdown-flag", "shutdown_requested() false");
    bool threw = false;
    try { ex->loop_once(); } catch (const std::runtime_error &) { threw = true; }
    SIM_CHECK(threw, "accepted-after-shutdown", "loop_once on a shut down executor does not report it");
  }
  SIM_CHECK(w.live == 0, "callable-leaked", "%d callables outlive the executor", w.live);
}

// Callers that wait for different numbers of tasks at once, and for hours.
SCENARIO(manual_wait) {
  struct Shared { int back = 0, took = 0, threw = 0; bool shutting = false; uint64_t posted = 0; } s;
  constexpr uint64_t kHour = 3600 * kSec;
  auto ex = std::make_shared<executor::Manual>();
  const auto day = ms(24 * 3600 * 1000);
  int nwait = 1 + sim::choose(4), nloop = sim::choose(3), take = 0, most = 0;
  bool shut = sim::choose(3) == 2;
  std::vector<std::unique_ptr<Thr>> ts;
  for (int i = 0; i < nwait; ++i) {
    int c = 1 + sim::choose(4), how = sim::choose(4);
    if (shut && sim::choose(2)) c = 1000; else if (c > most) most = c;
    ts.push_back(std::make_unique<Thr>([&, c, how] {
      uint64_t t0 = sim::now();
      try {
        maybe_pause(2000);
        size_t n = (size_t)c;
        switch (how) {
          case 0: ex->wait_for_tasks(c); break;
          case 1: n = ex->wait_for_tasks_for(c, day); break;
          case 2: n = ex->wait_for_tasks_until(c, std::chrono::steady_clock::now() + day); break;
          default: if (c == 1) ex->wait_for_task(); else ex->wait_for_tasks(c); break;
        }
        sim::NoPreempt g;
        SIM_CHECK(c < 1000 && n >= (size_t)c, "wait-early", "a wait for %d tasks ended with %zu", c, n);
        ++s.back;
      } catch (const std::runtime_error &) {
        sim::NoPreempt g;
        SIM_CHECK(s.shutting, "loop-threw", "a wait threw without shutdown");
        ++s.threw;
      }
      SIM_CHECK(sim::now() - t0 < kHour, "wait-late", "a wait for %d tasks ended after %llu s", c, (unsigned long long)((sim::now() - t0) / kSec));
    }));
  }
  for (int i = 0; i < nloop; ++i) {
    int c = 1 + sim::choose(3), how = sim::choose(3);
    if (how == 0) c = 1;
    take += c;
    ts.push_back(std::make_unique<Thr>([&, c, how] {
      uint64_t t0 = sim::now();
      try {
        maybe_pause(2000);
        size_t n = how == 0 ? (size_t)ex->loop_once_for(day) : how == 1 ? ex->loop_for(c, day) : ex->loop_until(c, std::chrono::steady_clock::now() + day);
        sim::NoPreempt g;
        SIM_CHECK(n == (size_t)c, "wait-early", "a loop for %d tasks ended with %zu", c, n);
        ++s.back;
      } catch (const std::runtime_error &) {
        sim::NoPreempt g;
        SIM_CHECK(s.shutting, "loop-threw", "a loop threw without shutdown");
        ++s.threw;
      }
      SIM_CHECK(sim::now() - t0 < kHour, "wait-late", "a loop for %d tasks ended after %llu s", c, (unsigned long long)((sim::now() - t0) / kSec));
    }));
  }
  // in the end as many are left as anyone waits for
  int total = most + take;
  if (shut) total = sim::choose(total + 1);
  int left = total;
  while (left > 0) {
    maybe_pause(2000);
    int n = 1 + sim::choose(left);
    auto task = [] {};
    if (sim::choose(2) || n == 1) { ex->post(task); --left; }
    else { std::vector<decltype(task)> v(n, task); ex->bulk_post(std::span(v)); left -= n; }
  }
  int all = nwait + nloop;
  if (!shut) {
    bool ok = patient([&] { return s.back == all; });
    SIM_CHECK(ok, "wait-late", "%d of %d waiting calls go on though what they wait for is there", all - s.back, all);
  } else {
    maybe_pause(3000);
    { sim::NoPreempt g; s.shutting = true; }
    ex->shutdown();
    bool ok = patient([&] { return s.back + s.threw == all; });
    SIM_CHECK(ok, "wait-late", "%d of %d waiting calls go on after shutdown", all - s.back - s.threw, all);
  }
  ts.clear();
  ex->shutdown();
}
