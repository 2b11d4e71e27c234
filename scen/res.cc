// Results: single consumer, shared, when_all / when_any, lazy and resume_on.
#include "common.h"
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/lazy.h"
#include "plain/concurrency/result/make.h"
#include "plain/concurrency/result/promise.h"
#include "plain/concurrency/result/resume_on.h"
#include "plain/concurrency/result/shared.h"
#include "plain/concurrency/result/when.h"
#include "plain/concurrency/result/awaitable.h"

using namespace scen;
using namespace plain::concurrency;
namespace r = plain::concurrency::result;

namespace {

int g_live;   // live values (leak / double destruction oracle)
bool calm() { auto &c = sim::config(); return !c.p_stall && !c.p_leap && !c.p_late; }

struct Val {
  int id = -1;
  uint32_t magic = 0x600d600d;
  explicit Val(int i) : id(i) { sim::NoPreempt g; ++g_live; }
  Val(Val &&o) noexcept : id(o.id) { sim::NoPreempt g; ++g_live; o.id = -2; }
  Val(const Val &) = delete;
  Val &operator=(Val &&o) noexcept { id = o.id; o.id = -2; return *this; }
  ~Val() { sim::NoPreempt g; --g_live; magic = 0xdeadbeef; }
};
struct Err { int id; };

enum How { VALUE, EXCEPTION, BROKEN, FUNCTION, FUNCTION_THROWS };

struct Chan {
  int id = 0;
  How how = VALUE;
  bool published = false;      // producer has entered its final call
  bool produced = false;       // producer call returned
  int deliveries = 0;
  bool done = false;           // consumer is through
  std::string what;            // consumer style
};

void check_value(Chan &c, int got) {
  sim::NoPreempt g;
  ++c.deliveries;
  SIM_CHECK(c.published, "value-before-produced", "channel %d (%s): value delivered before it was produced", c.id, c.what.c_str());
  SIM_CHECK(c.deliveries == 1, "delivered-twice", "channel %d (%s): delivered %d times", c.id, c.what.c_str(), c.deliveries);
  SIM_CHECK(c.how == VALUE || c.how == FUNCTION, "wrong-outcome", "channel %d (%s): value delivered, producer outcome %d", c.id, c.what.c_str(), c.how);
  SIM_CHECK(got == c.id * 10 + 3, "wrong-value", "channel %d (%s): got %d", c.id, c.what.c_str(), got);
  sim::event("value %d", c.id);
}
// Called inside a catch block.
void check_exception(Chan &c) {
  sim::NoPreempt g;
  ++c.deliveries;
  SIM_CHECK(c.published, "value-before-produced", "channel %d (%s): exception before it was produced", c.id, c.what.c_str());
  SIM_CHECK(c.deliveries == 1, "delivered-twice", "channel %d (%s): delivered %d times", c.id, c.what.c_str(), c.deliveries);
  try { throw; }
  catch (const Err &e) {
    SIM_CHECK((c.how == EXCEPTION || c.how == FUNCTION_THROWS) && e.id == c.id, "wrong-outcome",
              "channel %d (%s): exception %d delivered, producer outcome %d", c.id, c.what.c_str(), e.id, c.how);
  } catch (const std::runtime_error &e) {
    SIM_CHECK(c.how == BROKEN, "wrong-outcome", "channel %d (%s): interruption delivered ('%s'), producer outcome %d", c.id, c.what.c_str(), e.what(), c.how);
  } catch (...) {
    sim::fail("wrong-outcome", "channel %d (%s): unknown exception", c.id, c.what.c_str());
  }
  sim::event("exception %d", c.id);
}
How pick_how() {
  switch (sim::choose(8)) {
    case 1: return EXCEPTION;
    case 2: return BROKEN;
    case 3: return FUNCTION;
    case 4: return FUNCTION_THROWS;
    default: return VALUE;
  }
}

void produce(Chan &c, ResultPromise<Val> p) {
  maybe_pause(4000);
  if (sim::chance(250)) sim::sleep_ns(kMs * (1 + sim::choose(40)));
  if (sim::chance(200)) { ResultPromise<Val> q(std::move(p)); p = std::move(q); }
  { sim::NoPreempt g; c.published = true; sim::event("produce %d how %d", c.id, c.how); }
  switch (c.how) {
    case VALUE: p.set_result(c.id * 10 + 3); break;
    case EXCEPTION: p.set_exception(std::make_exception_ptr(Err{c.id})); break;
    case BROKEN: break;
    case FUNCTION: p.set_from_function([&c] { sim::yield(); return Val(c.id * 10 + 3); }); break;
    case FUNCTION_THROWS: p.set_from_function([&c]() -> Val { throw Err{c.id}; }); break;
  }
  if (c.how != BROKEN)
    SIM_CHECK(!static_cast<bool>(p), "promise-reusable", "promise still usable after it was settled");
  { ResultPromise<Val> dead(std::move(p)); }
  sim::NoPreempt g;
  c.produced = true;
}

// Producer as a coroutine on an executor.
Result<Val> co_produce(executor_tag, executor::Basic &, Chan &c) {
  maybe_pause(3000);
  { sim::NoPreempt g; c.published = true; sim::event("co_produce %d how %d", c.id, c.how); }
  if (c.how == EXCEPTION || c.how == FUNCTION_THROWS || c.how == BROKEN) {
    { sim::NoPreempt g; c.how = EXCEPTION; }
    throw Err{c.id};
  }
  co_return Val(c.id * 10 + 3);
}

r::null co_consume(Result<Val> res, Chan &c, bool resolve) {
  try {
    if (resolve) {
      Result<Val> again = co_await res.resolve();
      SIM_CHECK(again.status() != ResultStatus::Idle, "resolved-idle", "channel %d: resolved result is idle", c.id);
      Val v = co_await again;
      check_value(c, v.id);
    } else {
      Val v = co_await res;
      SIM_CHECK(v.magic == 0x600d600d, "wrong-value", "channel %d: dead value", c.id);
      check_value(c, v.id);
    }
  } catch (...) {
    check_exception(c);
  }
  sim::NoPreempt g;
  c.done = true;
}

const ResultStatus kIdle = ResultStatus::Idle;

void settled_status(Chan &c, ResultStatus s) {
  bool val = c.how == VALUE || c.how == FUNCTION;
  SIM_CHECK(s == (val ? ResultStatus::Value : ResultStatus::Exception), "wrong-status",
            "channel %d: settled status %d, producer outcome %d", c.id, (int)s, c.how);
}

void consume(Chan &c, Result<Val> res) {
  maybe_pause(4000);
  int style = sim::choose(9);
  static const char *names[] = {"get", "wait+get", "wait_for", "co_await", "resolve", "discard", "poll", "wait_until", "move+get"};
  c.what = names[style];
  auto finish = [&](Result<Val> q) {
    try {
      Val v = q.get();
      SIM_CHECK(v.magic == 0x600d600d, "wrong-value", "channel %d: dead value", c.id);
      check_value(c, v.id);
    } catch (...) {
      check_exception(c);
    }
    SIM_CHECK(!static_cast<bool>(q), "result-reusable", "result not empty after get");
    sim::NoPreempt g;
    c.done = true;
  };
  switch (style) {
    case 0: finish(std::move(res)); break;
    case 1:
      res.wait();
      SIM_CHECK(c.published, "wait-early", "wait() returned before the result was produced");
      settled_status(c, res.status());
      finish(std::move(res));
      break;
    case 2: case 7: {
      for (int i = 0; i < 2 + (int)sim::choose(3); ++i) {
        auto d = ms((int)sim::choose(10) - 1);
        uint64_t t0 = sim::now();
        bool pub0 = c.produced;
        auto s = style == 2 ? res.wait_for(d) : res.wait_until(std::chrono::steady_clock::now() + d);
        uint64_t el = sim::now() - t0;
        if (calm()) SIM_CHECK((int64_t)el <= (d.count() + 30) * (int64_t)kMs, "timeout-late",
                              "channel %d: timed wait of %lld ms took %llu us", c.id, (long long)d.count(), (unsigned long long)(el / 1000));
        if (s == kIdle) {
          sim::probe("wait_for_timeout");
          SIM_CHECK((int64_t)el >= d.count() * (int64_t)kMs, "timeout-early",
                    "channel %d: timed wait of %lld ms gave up after %llu us", c.id, (long long)d.count(), (unsigned long long)(el / 1000));
          SIM_CHECK(!pub0, "lost-result", "channel %d: timed wait says not ready although the producer was through before it began", c.id);
        } else {
          SIM_CHECK(c.published, "wait-early", "timed wait says ready before the result was produced");
          settled_status(c, s);
          SIM_CHECK(res.status() == s, "wrong-status", "channel %d: status changed after being settled", c.id);
        }
      }
      finish(std::move(res));
      break;
    }
    case 3: case 4:
      co_consume(std::move(res), c, style == 4);
      break;
    case 5: {
      { Result<Val> gone(std::move(res)); }
      sim::NoPreempt g;
      c.done = true;
      break;
    }
    case 6: {
      bool seen = false;
      for (int i = 0; i < 6; ++i) {
        bool prod = c.produced;
        auto s = res.status();
        if (s != kIdle) {
          SIM_CHECK(c.published, "wait-early", "status() says ready before the result was produced");
          settled_status(c, s);
          seen = true;
        } else {
          SIM_CHECK(!seen, "status-regressed", "status() went back to idle");
          SIM_CHECK(!prod, "lost-result", "status() idle although the producer was through");
        }
        maybe_pause(500);
      }
      finish(std::move(res));
      break;
    }
    default: {
      Result<Val> b;
      b = std::move(res);
      finish(std::move(b));
    }
  }
}

struct Execs {
  std::vector<std::shared_ptr<executor::Basic>> v;
  std::vector<std::set<int>> tids;
  Execs(int n) {
    tids.resize(n);
    for (int i = 0; i < n; ++i) {
      auto st = [this, i](std::string_view) { sim::NoPreempt g; tids[i].insert(sim::tid()); };
      switch (sim::choose(3)) {
        case 1: v.push_back(std::make_shared<executor::WorkerThread>(st)); break;
        case 2: v.push_back(std::make_shared<executor::Thread>(st)); break;
        default: v.push_back(std::make_shared<executor::ThreadPool>("rp", 1 + sim::choose(3), ms(sim::choose(2) ? 3 : 5000), st));
      }
    }
  }
  bool here(int i) { sim::NoPreempt g; return tids[i].count(sim::tid()) != 0; }
  void shutdown() { for (auto &e : v) e->shutdown(); }
  ~Execs() { shutdown(); }
};

}  // namespace

SCENARIO(res_single) {
  g_live = 0;
  bool jumps = sim::chance(250);
  {
    Execs ex(1);
    int n = 1 + sim::choose(3);
    std::deque<Chan> chans(n);
    std::vector<Thr> th;
    for (int i = 0; i < n; ++i) {
      Chan &c = chans[i];
      c.id = i + 1;
      c.how = pick_how();
      if (sim::choose(4) == 3) {
        auto res = co_produce({}, *ex.v[0], c);
        th.emplace_back([&c, res = std::move(res)]() mutable { consume(c, std::move(res)); });
        continue;
      }
      ResultPromise<Val> p;
      auto res = p.get_result();
      th.emplace_back([&c, p = std::move(p)]() mutable { produce(c, std::move(p)); });
      th.emplace_back([&c, res = std::move(res)]() mutable { consume(c, std::move(res)); });
    }
    if (jumps)
      for (int i = 0; i < 3; ++i) {
        maybe_pause(2000);
        sim::clock_jump((sim::choose(2) ? 1 : -1) * (int64_t)(1 + sim::choose(5000)) * (int64_t)kMs);
      }
    th.clear();
    eventually([&] { for (auto &c : chans) if (!c.done) return false; return true; }, "consumer-hangs", "every consumer is served");
    for (auto &c : chans)
      SIM_CHECK(c.deliveries == (c.what == "discard" ? 0 : 1), "lost-result", "channel %d (%s): %d deliveries", c.id, c.what.c_str(), c.deliveries);
    ex.shutdown();
  }
  SIM_CHECK(g_live == 0, "value-leaked", "%d result values alive at the end", g_live);
}

// ---------------------------------------------------------------- shared
namespace {
struct SC {
  Chan c;
  const Val *addr = nullptr;
  int pending = 0, delivered = 0;
};
void sh_value(SC &s, Val &v, const char *what) {
  sim::NoPreempt g;
  SIM_CHECK(s.c.published, "value-before-produced", "shared %s delivered before it was produced", what);
  SIM_CHECK(v.magic == 0x600d600d && v.id == s.c.id * 10 + 3 && (s.c.how == VALUE || s.c.how == FUNCTION), "wrong-value",
            "shared %s: value %d outcome %d", what, v.id, s.c.how);
  SIM_CHECK(!s.addr || s.addr == &v, "not-shared", "shared %s: consumers see different objects", what);
  s.addr = &v;
  --s.pending;
  ++s.delivered;
}
void sh_exc(SC &s, const char *what) {
  sim::NoPreempt g;
  SIM_CHECK(s.c.published, "value-before-produced", "shared %s: exception before it was produced", what);
  try { throw; }
  catch (const Err &e) { SIM_CHECK(s.c.how == EXCEPTION || s.c.how == FUNCTION_THROWS, "wrong-outcome", "shared %s: exception, outcome %d", what, s.c.how); }
  catch (const std::runtime_error &) { SIM_CHECK(s.c.how == BROKEN, "wrong-outcome", "shared %s: interruption, outcome %d", what, s.c.how); }
  --s.pending;
  ++s.delivered;
}
r::null sh_await(r::Shared<Val> sr, SC &s, bool resolve) {
  try {
    if (resolve) {
      auto again = co_await sr.resolve();
      SIM_CHECK(again.status() != kIdle, "resolved-idle", "resolved shared result is idle");
      Val &v = co_await again;
      sh_value(s, v, "resolve");
    } else {
      Val &v = co_await sr;
      sh_value(s, v, "co_await");
    }
  } catch (...) { sh_exc(s, "co_await"); }
}
void sh_consume(r::Shared<Val> sr, SC &s) {
  maybe_pause(3000);
  int n = 1 + sim::choose(2);
  for (int k = 0; k < n; ++k) {
    { sim::NoPreempt g; ++s.pending; }
    switch (sim::choose(7)) {
      case 1: sr.wait(); SIM_CHECK(sr.status() != kIdle, "wait-early", "shared wait returned on an idle result");
        [[fallthrough]];
      case 0:
        try { sh_value(s, sr.get(), "get"); } catch (...) { sh_exc(s, "get"); }
        break;
      case 2: {
        auto d = ms((int)sim::choose(10) - 1);
        uint64_t t0 = sim::now();
        bool prod = s.c.produced;
        auto st = sim::choose(2) ? sr.wait_until(std::chrono::steady_clock::now() + d) : sr.wait_for(d);
        if (calm()) SIM_CHECK((int64_t)(sim::now() - t0) <= (d.count() + 30) * (int64_t)kMs, "timeout-late", "shared timed wait of %lld ms took %llu us", (long long)d.count(), (unsigned long long)((sim::now() - t0) / 1000));
        if (st == kIdle) {
          SIM_CHECK((int64_t)(sim::now() - t0) >= d.count() * (int64_t)kMs, "timeout-early", "shared wait_for(%lld ms) gave up after %llu us", (long long)d.count(), (unsigned long long)((sim::now() - t0) / 1000));
          SIM_CHECK(!prod, "lost-result", "shared wait_for idle although the producer was through");
          sim::probe("wait_for_timeout");
        } else settled_status(s.c, st);
        sim::NoPreempt g; --s.pending;
        break;
      }
      case 3: sh_await(sr, s, false); break;
      case 4: sh_await(sr, s, true); break;
      case 5: {
        bool prod = s.c.produced;
        auto st = sr.status();
        if (st == kIdle) SIM_CHECK(!prod, "lost-result", "shared status idle although the producer was through");
        else settled_status(s.c, st);
        sim::NoPreempt g; --s.pending;
        break;
      }
      default: {
        r::Shared<Val> copy(sr);
        r::Shared<Val> moved(std::move(copy));
        sr = moved;
        sim::NoPreempt g; --s.pending;
      }
    }
    maybe_pause(1000);
  }
}
}  // namespace

SCENARIO(res_shared) {
  g_live = 0;
  {
    SC s;
    s.c.id = 4;
    s.c.how = pick_how();
    bool jumps = sim::chance(200);
    std::vector<Thr> th;
    {
      ResultPromise<Val> p;
      auto res = p.get_result();
      bool early = sim::chance(200);
      if (early) produce(s.c, std::move(p));
      else th.emplace_back([&s, p = std::move(p)]() mutable { produce(s.c, std::move(p)); });
      r::Shared<Val> sr(std::move(res));
      int n = sim::choose(4);
      for (int i = 0; i < n; ++i) th.emplace_back([&s, sr] { sh_consume(sr, s); });
      if (sim::choose(2)) { { sim::NoPreempt g; ++s.pending; } sh_await(sr, s, false); }
      maybe_pause(2000);
    }
    if (jumps) { maybe_pause(3000); sim::clock_jump((sim::choose(2) ? 1 : -1) * (int64_t)(1 + sim::choose(3000)) * (int64_t)kMs); }
    th.clear();
    eventually([&] { return s.pending == 0; }, "consumer-hangs", "every consumer of the shared result is served");
    if (s.delivered > 1) sim::probe("shared_many");
  }
  SIM_CHECK(g_live == 0, "value-leaked", "%d result values alive at the end", g_live);
}

// ---------------------------------------------------------------- when_*
namespace {
void start_channels(std::deque<Chan> &chans, std::vector<Result<Val>> &results, std::vector<Thr> &th, Execs &ex, int n) {
  for (int i = 0; i < n; ++i) {
    Chan &c = chans[i];
    c.id = i + 1;
    c.what = "when";
    c.how = pick_how();
    switch (sim::choose(4)) {
      case 2: results.push_back(co_produce({}, *ex.v[0], c)); break;
      case 3:
        c.how = VALUE; c.published = c.produced = true;
        results.push_back(r::make_ready<Val>(c.id * 10 + 3));
        break;
      default: {
        ResultPromise<Val> p;
        results.push_back(p.get_result());
        th.emplace_back([&c, p = std::move(p)]() mutable { produce(c, std::move(p)); });
      }
    }
  }
}
void take(Chan &c, Result<Val> &res) {
  try { Val v = res.get(); check_value(c, v.id); } catch (...) { check_exception(c); }
}
}  // namespace

SCENARIO(res_when) {
  g_live = 0;
  {
    Execs ex(2);
    auto &target = ex.v[1];
    int n = 1 + sim::choose(4);
    std::deque<Chan> chans(n);
    std::vector<Result<Val>> results;
    std::vector<Thr> th;
    start_channels(chans, results, th, ex, n);
    bool any = sim::choose(2), tuple = n >= 2 && sim::choose(3) == 2;
    bool done = false;
    if (!any) {
      auto check_all = [&](auto get) {
        for (int i = 0; i < n; ++i) {
          Result<Val> &res = get(i);
          SIM_CHECK(chans[i].published, "when_all-early", "when_all finished before channel %d was produced", i);
          SIM_CHECK(static_cast<bool>(res) && res.status() != kIdle, "when_all-early", "when_all finished but result %d is idle", i);
          settled_status(chans[i], res.status());
          take(chans[i], res);
        }
      };
      auto on_target = [&] {
        SIM_CHECK(ex.here(1), "resumed-elsewhere", "when_all resumed on t%d, not on the given executor", sim::tid());
      };
      auto run_v = [&](LazyResult<std::vector<Result<Val>>> lazy) -> Result<int> {
        auto rs = co_await lazy;
        on_target();
        SIM_CHECK((int)rs.size() == n, "when_all-size", "when_all of %d results gave %zu", n, rs.size());
        check_all([&](int i) -> Result<Val> & { return rs[i]; });
        co_return 1;
      };
      auto run_t = [&](LazyResult<std::tuple<Result<Val>, Result<Val>>> lazy) -> Result<int> {
        auto rs = co_await lazy;
        on_target();
        take(chans[0], std::get<0>(rs));
        take(chans[1], std::get<1>(rs));
        co_return 1;
      };
      Result<int> out;
      if (tuple) {
        n = 2;
        out = run_t(r::when_all(target, std::move(results[0]), std::move(results[1])));
      } else out = run_v(r::when_all(target, results.begin(), results.end()));
      if (sim::choose(2)) { out.wait(); done = true; }
      else {
        eventually([&] { return out.status() != kIdle; }, "consumer-hangs", "when_all completes");
        done = true;
      }
      SIM_CHECK(out.get() == 1, "wrong-value", "when_all coroutine failed");
      sim::probe("when_all_done");
    } else {
      auto on_target = [&] {
        SIM_CHECK(ex.here(1), "resumed-elsewhere", "when_any resumed on t%d, not on the given executor", sim::tid());
      };
      auto first = [&](size_t idx, auto get) {
        SIM_CHECK(idx < (size_t)n, "when_any-index", "when_any index %zu of %d", idx, n);
        Result<Val> &res = get((int)idx);
        SIM_CHECK(chans[idx].published && static_cast<bool>(res) && res.status() != kIdle, "when_any-early",
                  "when_any reports result %zu which is not ready", idx);
        take(chans[idx], res);
      };
      auto run_v = [&](LazyResult<r::WhenAny<std::vector<Result<Val>>>> lazy, bool drop) -> Result<int> {
        auto w = co_await lazy;
        on_target();
        SIM_CHECK((int)w.results.size() == n, "when_any-size", "when_any of %d results gave %zu", n, w.results.size());
        auto get = [&](int i) -> Result<Val> & { return w.results[i]; };
        first(w.index, get);
        // the others stay usable
        if (!drop) {
          if (sim::choose(2) && n > 1) {
            // ... also in a second round
            std::vector<Result<Val>> rest;
            std::vector<int> ids;
            for (int i = 0; i < n; ++i) if (i != (int)w.index) { rest.push_back(std::move(w.results[i])); ids.push_back(i); }
            auto w2 = co_await r::when_any(target, rest.begin(), rest.end());
            SIM_CHECK(w2.index < ids.size(), "when_any-index", "second when_any index %zu", w2.index);
            SIM_CHECK(chans[ids[w2.index]].published && w2.results[w2.index].status() != kIdle, "when_any-early", "second when_any not ready");
            for (size_t k = 0; k < ids.size(); ++k) take(chans[ids[k]], w2.results[k]);
            sim::probe("when_any_twice");
          } else
          for (int i = 0; i < n; ++i) if (i != (int)w.index) take(chans[i], w.results[i]);
        }
        co_return 1;
      };
      auto run_t = [&](LazyResult<r::WhenAny<std::tuple<Result<Val>, Result<Val>>>> lazy) -> Result<int> {
        auto w = co_await lazy;
        on_target();
        auto get = [&](int i) -> Result<Val> & { return i ? std::get<1>(w.results) : std::get<0>(w.results); };
        first(w.index, get);
        co_return 1;
      };
      Result<int> out;
      bool drop = sim::choose(2);
      if (drop || tuple) sim::probe("when_any_rest_dropped");
      if (tuple) {
        n = 2;
        out = run_t(r::when_any(target, std::move(results[0]), std::move(results[1])));
      } else out = run_v(r::when_any(target, results.begin(), results.end()), drop);
      eventually([&] { return out.status() != kIdle; }, "consumer-hangs", "when_any completes");
      SIM_CHECK(out.get() == 1, "wrong-value", "when_any coroutine failed");
      done = true;
      sim::probe("when_any_done");
    }
    results.clear();
    th.clear();
    ex.shutdown();
    (void)done;
  }
  SIM_CHECK(g_live == 0, "value-leaked", "%d result values alive at the end", g_live);
}

// ---------------------------------------------------------------- lazy, resume_on
namespace {
struct LW {
  Execs *ex;
  int frames = 0, started = 0, finished = 0, interrupted = 0;
  bool shutting = false;
};
LW *L;
struct Frame {   // lives in a coroutine frame
  Frame() { sim::NoPreempt g; ++L->frames; }
  ~Frame() { sim::NoPreempt g; --L->frames; }
};
int expected(int depth) { return depth == 0 ? 1 : 1 + 2 * expected(depth - 1); }

LazyResult<int> hop_lazy(int depth, bool throws) {
  Frame f;
  { sim::NoPreempt g; ++L->started; }
  int e = sim::choose(L->ex->v.size());
  co_await r::resume_on(L->ex->v[e]);
  SIM_CHECK(L->ex->here(e), "resumed-elsewhere", "resume_on(executor %d) continued on t%d", e, sim::tid());
  maybe_pause(1500);
  int sum = 1;
  if (depth) {
    auto a = hop_lazy(depth - 1, false);
    auto b = hop_lazy(depth - 1, throws);
    if (sim::choose(2)) {
      Result<int> ra = a.run();
      Result<int> rb = b.run();
      sum += co_await ra;
      sum += co_await rb;
    } else {
      sum += co_await a;
      auto b2 = co_await b.resolve();
      SIM_CHECK(b2.status() != kIdle, "resolved-idle", "resolved lazy result is idle");
      sum += co_await b2;
    }
  } else if (throws) throw Err{77};
  { sim::NoPreempt g; ++L->finished; }
  co_return sum;
}
}  // namespace

SCENARIO(res_lazy) {
  LW l;
  L = &l;
  {
    Execs ex(2);
    l.ex = &ex;
    int depth = sim::choose(3);
    bool throws = sim::choose(4) == 3;
    bool race = sim::choose(3) == 2;
    int roots = 1 + sim::choose(2);
    {
      auto never = hop_lazy(1, false);
      SIM_CHECK(l.started == 0, "lazy-eager", "a lazy result started before it was awaited");
    }
    SIM_CHECK(l.started == 0 && l.frames == 0, "lazy-eager", "a dropped lazy result ran");
    std::vector<Result<int>> outs;
    for (int i = 0; i < roots; ++i) outs.push_back(hop_lazy(depth, throws).run());
    if (race) {
      maybe_pause(3000);
      sim::count_fault(sim::F_SHUTDOWN_RACE);
      { sim::NoPreempt g; l.shutting = true; }
      ex.shutdown();
    }
    for (auto &o : outs) {
      eventually([&] { return o.status() != kIdle; }, "consumer-hangs", "the lazy chain completes");
      try {
        int v = o.get();
        SIM_CHECK(!throws, "exception-lost", "lazy chain lost an exception");
        SIM_CHECK(v == expected(depth), "wrong-value", "lazy chain gave %d", v);
      } catch (const Err &e) {
        SIM_CHECK(throws && e.id == 77, "wrong-outcome", "unexpected exception from the lazy chain");
      } catch (const std::runtime_error &) {
        SIM_CHECK(l.shutting, "broken-while-open", "lazy chain interrupted although nothing was shut down");
        sim::probe("chain_interrupted");
      }
    }
    ex.shutdown();
    // a nested eager branch may still be unwinding in another coroutine only if it was detached
    SIM_CHECK(l.frames == 0, "frame-leaked", "%d coroutine frames alive after every result settled and executors are shut down", l.frames);
  }
}
