// Timers: never early, exactly once per period, in deadline order, silent after
// cancel; delay objects; timer queue shutdown.
#include "common.h"
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/lazy.h"
#include "plain/engine/timer_queue.h"
#include <mutex>

using namespace scen;
using namespace plain;
using namespace plain::concurrency;

namespace {

// An executor of the user's own: runs tasks in order on one thread and records
// when each task was handed over and when it began.
bool g_queue_silent;   // the timer queue's shutdown() has returned

class Probe : public executor::Basic {
 public:
  Probe() : Basic("probe") { t_ = std::thread([this] { loop(); }); }
  ~Probe() override { shutdown(); }
  void enqueue(Task task) override {
    { sim::NoPreempt g; SIM_CHECK(!g_queue_silent, "fired-after-shutdown", "a timer fired after the timer queue's shutdown() had returned"); }
    std::unique_lock<std::mutex> l(m_);
    if (stop_) throw std::runtime_error("probe executor is shut down");
    q_.emplace_back(std::move(task), sim::now());
    l.unlock();
    c_.notify_one();
  }
  void enqueue(std::span<Task> ts) override { for (auto &t : ts) enqueue(std::move(t)); }
  int32_t max_concurrency_level() const noexcept override { return 1; }
  bool shutdown_requested() const override { std::unique_lock<std::mutex> l(m_); return stop_; }
  void shutdown() override {
    { std::unique_lock<std::mutex> l(m_); stop_ = true; }
    c_.notify_all();
    if (t_.joinable()) t_.join();
    std::deque<std::pair<Task, uint64_t>> q;
    { std::unique_lock<std::mutex> l(m_); q.swap(q_); }
    q.clear();
  }
  uint64_t slow_ns = 0;
  // of the task being run (read by the task itself)
  uint64_t posted = 0, begun = 0, begun_seq = 0;
 private:
  void loop() {
    for (;;) {
      std::unique_lock<std::mutex> l(m_);
      c_.wait(l, [this] { return stop_ || !q_.empty(); });
      if (stop_) return;
      auto p = std::move(q_.front());
      q_.pop_front();
      l.unlock();
      if (slow_ns) sim::sleep_ns(slow_ns);
      posted = p.second;
      { sim::NoPreempt g; begun = sim::now(); begun_seq = sim::seqno(); }
      p.first();
    }
  }
  mutable std::mutex m_;
  std::condition_variable c_;
  std::deque<std::pair<Task, uint64_t>> q_;
  bool stop_ = false;
  std::thread t_;
};

struct TM {
  int id = 0;
  bool oneshot = false, cancel_req = false, cancelled = false, created = false;
  bool handle_dropped = false;
  uint64_t t_begin = 0, t_made = 0, due = 0;       // ns
  uint64_t min_freq = 0, freq = 0;
  uint64_t freq_changed = 0;                       // sim time of the last set_frequency
  uint64_t made_seq = 0, begin_seq = 0, cancel_seq = ~0ull;
  int fires = 0, running = 0;
  int live = 0;
  uint64_t last_post = 0;
  int ex = 0;
  uint64_t first_seq = 0;
  Timer timer;
};
struct TW {
  std::deque<TM> tms;
  std::vector<std::shared_ptr<executor::Basic>> exs;
  std::vector<Probe *> probes;
  bool calm = false, steady = false, jumps = false, exec_down = false, queue_down = false;
  uint64_t quiet_from = 0;
  int tq_started = 0, tq_ended = 0, tq_max = 0;
};
TW *T;

struct TTok {
  TM *t;
  explicit TTok(TM *x) : t(x) { sim::NoPreempt g; ++t->live; }
  TTok(const TTok &o) : t(o.t) { sim::NoPreempt g; if (t) ++t->live; }
  TTok(TTok &&o) noexcept : t(o.t) { o.t = nullptr; }
  ~TTok() { sim::NoPreempt g; if (t) --t->live; }
};

void fired(TM &t) {
  {
    sim::NoPreempt g;
    ++t.fires;
    Probe *p = T->probes[t.ex];
    uint64_t when = p ? p->posted : sim::now();
    sim::event("fire timer %d (%d)", t.id, t.fires);
    uint64_t lo = t.t_begin + t.due + (uint64_t)(t.fires - 1) * t.min_freq;
    SIM_CHECK(when >= lo, "timer-early", "timer %d (due %llu ms, period %llu ms): firing %d happened %llu us too early",
              t.id, (unsigned long long)(t.due / kMs), (unsigned long long)(t.min_freq / kMs), t.fires, (unsigned long long)((lo - when) / 1000));
    SIM_CHECK(!t.oneshot || t.fires == 1, "oneshot-twice", "one-shot timer %d fired %d times", t.id, t.fires);
    if (p) {
      if (t.fires > 1 && T->steady)
        SIM_CHECK(when + 2 * kMs >= t.last_post + t.min_freq, "period-short", "timer %d: firings %d and %d only %llu us apart, period %llu ms",
                  t.id, t.fires - 1, t.fires, (unsigned long long)((when - t.last_post) / 1000), (unsigned long long)(t.min_freq / kMs));
      SIM_CHECK(p->begun_seq < t.cancel_seq, "fired-after-cancel", "timer %d: a task begun after cancel() had returned ran the callable", t.id);
      if (T->calm && !T->jumps) {
        uint64_t base = t.fires == 1 ? std::max(t.t_made, t.t_begin + t.due) : t.last_post + t.freq;
        if (!t.freq_changed)
          SIM_CHECK(when <= base + 8 * kMs, "timer-late", "timer %d: firing %d is %llu us late on an idle system", t.id, t.fires, (unsigned long long)((when - base) / 1000));
      }
      t.last_post = when;
    }
    if (t.fires == 1) t.first_seq = sim::seqno();
    ++t.running;
  }
  if (sim::chance(300)) sim::yield();
  sim::NoPreempt g;
  --t.running;
}

std::shared_ptr<TimerQueue> make_queue() {
  static const int idle[] = {10000, 1, 4, 30};
  return std::make_shared<TimerQueue>(ms(idle[sim::choose(4)]),
    [](std::string_view) { sim::NoPreempt g; ++T->tq_started; },
    [](std::string_view) { sim::NoPreempt g; ++T->tq_ended; });
}

void make_execs(int n, uint64_t slow) {
  for (int i = 0; i < n; ++i) {
    Probe *p = nullptr;
    std::shared_ptr<executor::Basic> e;
    switch (sim::choose(6)) {
      case 3: e = std::make_shared<executor::WorkerThread>(); break;
      case 4: e = std::make_shared<executor::ThreadPool>("tp", 1 + sim::choose(2), ms(sim::choose(2) ? 5 : 5000)); break;
      case 5: e = std::make_shared<executor::Inline>(); break;
      default: { auto q = std::make_shared<Probe>(); p = q.get(); if (slow && sim::choose(2)) p->slow_ns = slow * (1 + sim::choose(10)); e = q; }
    }
    T->exs.push_back(e);
    T->probes.push_back(p);
  }
}

// returns false when the queue refused it
bool create(TimerQueue &q, TM &t) {
  int due = sim::choose(3) == 0 ? 0 : 1 + sim::choose(40);
  int freq = 2 + sim::choose(25);
  bool oneshot = sim::choose(2);
  {
    sim::NoPreempt g;
    t.oneshot = oneshot;
    t.due = due * kMs;
    t.freq = t.min_freq = oneshot ? 0 : freq * kMs;
    t.ex = sim::choose(T->exs.size());
    t.t_begin = sim::now();
    t.begin_seq = sim::seqno();
    sim::event("create timer %d due %d freq %d oneshot %d", t.id, due, freq, oneshot);
  }
  try {
    if (oneshot) t.timer = q.make_one_shot_timer(ms(due), T->exs[t.ex], [k = TTok(&t)] { fired(*k.t); });
    else t.timer = q.make_timer(ms(due), ms(freq), T->exs[t.ex], [k = TTok(&t)] { fired(*k.t); });
  } catch (const std::runtime_error &) {
    sim::NoPreempt g;
    SIM_CHECK(T->queue_down, "refused-while-open", "a timer was refused although the timer queue was never shut down");
    return false;
  }
  SIM_CHECK(static_cast<bool>(t.timer), "empty-timer", "make_timer returned an empty timer");
  SIM_CHECK(t.timer.get_due_time() == ms(due), "timer-meta", "due time changed");
  sim::NoPreempt g;
  t.t_made = sim::now();
  t.made_seq = sim::seqno();
  t.created = true;
  return true;
}
void cancel(TM &t) {
  { sim::NoPreempt g; t.cancel_req = true; sim::event("cancel %d", t.id); }
  switch (sim::choose(3)) {
    case 0: t.timer.cancel(); break;
    case 1: { Timer gone(std::move(t.timer)); break; }
    default: t.timer = Timer(); break;   // assigning over a timer gives it up
  }
  sim::NoPreempt g;
  t.cancelled = true;
  t.cancel_seq = sim::seqno();
  SIM_CHECK(!static_cast<bool>(t.timer), "cancel-incomplete", "timer handle not empty after cancel");
}

}  // namespace

// Timers while everything stays up: T01.
SCENARIO(timer_fire) {
  TW w;
  T = &w;
  g_queue_silent = false;
  auto &cfg = sim::config();
  int mood = sim::choose(4);
  // calm: the machine is idle; steady: threads are woken late but never stall while running
  w.calm = mood == 0;
  w.steady = mood <= 1;
  if (w.steady) { cfg.p_stall = 0; cfg.p_leap = 0; }
  if (w.calm) cfg.p_late = 0;
  w.jumps = sim::chance(250);
  {
    make_execs(1 + sim::choose(2), w.calm ? 0 : kMs);
    auto q = make_queue();
    int nthr = 1 + sim::choose(2), per = 1 + sim::choose(3);
    w.tms.resize(nthr * per);
    {
      std::vector<Thr> th;
      for (int i = 0; i < nthr; ++i)
        th.emplace_back([&, i] {
          for (int k = 0; k < per; ++k) {
            TM &t = w.tms[i * per + k];
            t.id = i * per + k;
            create(*q, t);
            maybe_pause(20000);
            if (sim::chance(200)) sim::sleep_ns(kMs * (1 + sim::choose(60)));
            if (sim::chance(150)) cancel(t);
            else if (!t.oneshot && sim::chance(200)) {
              int f = 1 + sim::choose(30);
              { sim::NoPreempt g; t.min_freq = std::min<uint64_t>(t.min_freq, f * kMs); t.freq_changed = sim::now(); }
              t.timer.set_frequency(ms(f));
              SIM_CHECK(t.timer.get_frequency() == ms(f), "timer-meta", "set_frequency had no effect");
            }
          }
        });
      if (w.jumps)
        for (int i = 0; i < 2 + (int)sim::choose(4); ++i) {
          sim::sleep_ns(kMs * (1 + sim::choose(15)));
          sim::clock_jump((sim::choose(2) ? 1 : -1) * (int64_t)(1 + sim::choose(sim::choose(2) ? 50 : 100000)) * (int64_t)kMs);
        }
    }
    // progress: every live timer fires (periodic ones repeatedly)
    std::vector<int> base;
    for (auto &t : w.tms) base.push_back(t.fires);
    eventually([&] {
      for (size_t i = 0; i < w.tms.size(); ++i) {
        TM &t = w.tms[i];
        if (t.cancelled) continue;
        if (t.oneshot ? t.fires < 1 : t.fires < base[i] + 3) return false;
      }
      return true;
    }, "timer-lost", "every armed timer fires", 20 * kSec);
    sim::probe("all_fired");
    // order: same executor with one consumer, one created before the other, earlier deadline first
    for (auto &a : w.tms)
      for (auto &b : w.tms)
        if (&a != &b && a.fires && b.fires && a.ex == b.ex && w.probes[a.ex] && a.made_seq < b.begin_seq && a.t_made + a.due < b.t_begin + b.due)
          SIM_CHECK(a.first_seq < b.first_seq, "timer-order", "timer %d with the earlier deadline fired after timer %d", a.id, b.id);
    // after cancelling everything, silence
    for (auto &t : w.tms) if (!t.cancelled) cancel(t);
    if (sim::choose(2)) {
      sim::sleep_ns(kMs * 5);
      eventually([&] { for (auto &t : w.tms) if (t.running) return false; return true; }, "timer-stuck", "callables return");
      std::vector<int> n;
      for (auto &t : w.tms) n.push_back(t.fires);
      bool other = false;   // pools may have passed their check before cancel
      for (auto *p : w.probes) if (!p) other = true;
      if (!other) {
        sim::sleep_ns(200 * kMs);
        for (size_t i = 0; i < n.size(); ++i)
          SIM_CHECK(w.tms[i].fires == n[i], "fired-after-cancel", "timer %d fires after it was cancelled", (int)i);
        sim::probe("silent_after_cancel");
      }
    }
    q->shutdown();
    q.reset();
    for (auto &e : w.exs) e->shutdown();
    w.exs.clear();
  }
  for (auto &t : w.tms) SIM_CHECK(t.live == 0, "callable-leaked", "timer %d: callable outlives queue and executors", t.id);
  SIM_CHECK(w.tq_started == w.tq_ended, "callback-pairing", "timer threads: %d started, %d terminated", w.tq_started, w.tq_ended);
  if (w.tq_started > 1) sim::probe("timer_thread_restarted");
}

// ------------------------------------------------------------ shutdown, delays
namespace {
struct DW { int frames = 0, started = 0, done = 0, interrupted = 0, refused = 0; };
DW *D;
struct DFrame { DFrame() { sim::NoPreempt g; ++D->frames; } ~DFrame() { sim::NoPreempt g; --D->frames; } };

Result<int> sleeper(std::shared_ptr<TimerQueue> q, int ex, int hops, int id) {
  DFrame f;
  { sim::NoPreempt g; ++D->started; }
  Timer held;       // a coroutine may own timers of its own
  TM *mine = nullptr;
  if (sim::chance(400)) {
    { sim::NoPreempt g; T->tms.emplace_back(); mine = &T->tms.back(); mine->id = 100 + id; }
    create(*q, *mine);
  }
  int ok = 0;
  bool intr = false;
  for (int i = 0; i < hops && !intr; ++i) {
    int d = sim::choose(4) == 0 ? 0 : 1 + sim::choose(20);
    uint64_t t0 = sim::now();
    try {
      co_await q->make_delay_object(ms(d), T->exs[ex]);
      sim::NoPreempt g;
      SIM_CHECK(sim::now() - t0 >= (uint64_t)d * kMs, "timer-early", "delay of %d ms took %llu us", d, (unsigned long long)((sim::now() - t0) / 1000));
      Probe *p = T->probes[ex];
      if (p && T->calm && !T->jumps)
        SIM_CHECK(p->posted - t0 <= d * kMs + 8 * kMs, "timer-late", "delay of %d ms took %llu us on an idle system", d, (unsigned long long)((p->posted - t0) / 1000));
      ++ok;
    } catch (const std::runtime_error &) {
      sim::NoPreempt g;
      SIM_CHECK(T->queue_down || T->exec_down, "interrupted-while-open", "a delay was interrupted although nothing was shut down");
      ++D->interrupted;
      sim::probe("delay_interrupted");
      intr = true;
    }
  }
  if (mine) {
    if (mine->created && sim::choose(2)) cancel(*mine);
    else { Timer gone(std::move(mine->timer)); sim::NoPreempt g; mine->cancelled = true; }
  }
  sim::NoPreempt g;
  ++D->done;
  co_return ok;
}
}  // namespace

SCENARIO(timer_shutdown) {
  TW w;
  T = &w;
  g_queue_silent = false;
  DW d;
  D = &d;
  w.calm = false;
  w.jumps = sim::chance(150);
  {
    make_execs(1 + sim::choose(2), kMs / 100);
    auto q = make_queue();
    int nthr = 1 + sim::choose(2), per = 1 + sim::choose(3);
    int nsleep = sim::choose(4);
    w.tms.resize(nthr * per);
    std::deque<Result<int>> rs;
    int mode = sim::choose(4);   // 0: queue first, 1: executors first, 2: only drop the last reference, 3: shut down twice, racing
    bool early = sim::choose(2);
    // A timer that is a long way off: nothing may wait for it.
    auto &cfg = sim::config();
    const bool far = sim::choose(3) == 2;
    const uint64_t t_begin = sim::now();
    Timer far_off;
    if (far) {
      cfg.p_leap = 0;
      w.jumps = false;
      far_off = q->make_one_shot_timer(ms(86400000), w.exs[0], [] { sim::fail("timer-early", "a timer of tomorrow fires today"); });
    }
    std::vector<Thr> th;
    std::weak_ptr<TimerQueue> wq = q;
    for (int i = 0; i < nthr; ++i)
      th.emplace_back([&, i, q] {
        for (int k = 0; k < per; ++k) {
          TM &t = w.tms[i * per + k];
          t.id = i * per + k;
          if (!create(*q, t)) { sim::NoPreempt g; ++d.refused; sim::probe("timer_refused"); continue; }
          maybe_pause(10000);
          if (sim::chance(400)) cancel(t);
        }
      });
    for (int i = 0; i < nsleep; ++i) {
      maybe_pause(3000);
      rs.push_back(sleeper(q, sim::choose(w.exs.size()), 1 + sim::choose(3), i));
    }
    if (!early) th.clear();
    maybe_pause(20000);
    if (w.jumps) sim::clock_jump((sim::choose(2) ? 1 : -1) * (int64_t)(1 + sim::choose(100000)) * (int64_t)kMs);
    sim::count_fault(sim::F_SHUTDOWN_RACE);
    auto down_q = [&] { { sim::NoPreempt g; w.queue_down = true; sim::event("queue shutdown"); } q->shutdown(); };
    auto down_e = [&] { { sim::NoPreempt g; w.exec_down = true; sim::event("executors shutdown"); } for (auto &e : w.exs) e->shutdown(); };
    switch (mode) {
      case 1: down_e(); down_q(); g_queue_silent = true; break;
      case 2: th.clear();
        // holders of delays keep the queue alive through their own reference
        for (auto &r : rs) eventually([&] { return r.status() != ResultStatus::Idle; }, "consumer-hangs", "every delayed coroutine ends", 30 * kSec);
        { sim::NoPreempt g; w.queue_down = true; }
        break;
      case 3: { Thr a([&] { down_q(); }); down_q(); down_e(); break; }
      default: down_q(); g_queue_silent = true; break;
    }
    th.clear();
    SIM_CHECK(mode == 2 || q->shutdown_requested(), "shutdown-flag", "shutdown_requested() false after shutdown");
    if (mode != 2) {
      TM late;
      late.id = 99;
      SIM_CHECK(!create(*q, late), "accepted-after-shutdown", "a timer was accepted after shutdown() returned");
      int n = 0;
      for (auto &t : w.tms) n += t.fires;
      (void)n;
    }
    if (mode == 0) {
      // Work already handed over drains, then the timers are silent for good.
      std::vector<int> n;
      int rounds = 0;
      for (;; ++rounds) {
        std::vector<int> m;
        for (auto &t : w.tms) m.push_back(t.fires);
        if (m == n) break;
        SIM_CHECK(rounds < 20, "fired-after-shutdown", "timers still fire long after the timer queue was shut down");
        n = m;
        sim::sleep_ns(2 * kSec);
      }
    }
    for (auto &t : w.tms) if (t.created && !t.cancelled && sim::choose(2)) cancel(t);
    q.reset();
    down_e();
    for (auto &r : rs) {
      eventually([&] { return r.status() != ResultStatus::Idle; }, "consumer-hangs", "every delayed coroutine ends", 30 * kSec);
      try { r.get(); } catch (const std::exception &e) { sim::fail("wrong-outcome", "delayed coroutine failed: %s", e.what()); }
    }
    rs.clear();
    for (auto &t : w.tms) { Timer gone(std::move(t.timer)); }
    SIM_CHECK(!far || sim::now() - t_begin < 3600 * kSec, "shutdown-late", "the shutdown of a timer queue waits for the timers that are pending");
    { Timer gone(std::move(far_off)); }
    w.exs.clear();
    SIM_CHECK(d.frames == 0, "frame-leaked", "%d coroutine frames alive at the end", d.frames);
  }
  for (auto &t : w.tms) SIM_CHECK(t.live == 0, "callable-leaked", "timer %d: callable outlives queue and executors", t.id);
  SIM_CHECK(w.tq_started == w.tq_ended, "callback-pairing", "timer threads: %d started, %d terminated", w.tq_started, w.tq_ended);
}
