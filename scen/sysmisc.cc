// The plain thread pool and task queue, looping threads, variables and globals.
#include "common.h"
#include <atomic>
#include <future>
#include <sstream>
#include <stdexcept>
#include "plain/basic/logger.h"
#include "plain/basic/global.h"
#include "plain/basic/task_queue.h"
#include "plain/basic/type/variable.h"
#include "plain/sys/thread.h"

using namespace scen;

namespace {
struct Tk { int ran = 0; bool throws = false; };
struct SW {
  std::deque<Tk> tasks;
  std::vector<int> order;    // of the queue: which task started when
  int running = 0, limit = 0;
  bool gone = false;
};
SW *S;
int task(int id) {
  bool t;
  {
    sim::NoPreempt g;
    Tk &k = S->tasks[id];
    SIM_CHECK(++k.ran == 1, "task-ran-twice", "task %d ran twice", id);
    SIM_CHECK(!S->gone, "task-ran-after-shutdown", "task %d runs after its owner was destroyed", id);
    S->order.push_back(id);
    SIM_CHECK(++S->running <= S->limit, "too-much-concurrency", "%d tasks run at once on %d threads", S->running, S->limit);
    t = k.throws;
  }
  maybe_pause(200);
  { sim::NoPreempt g; --S->running; }
  if (t) throw std::runtime_error("t" + std::to_string(id));
  return id * 3;
}
int next_task() {
  sim::NoPreempt g;
  Tk k;
  k.throws = sim::choose(4) == 3;
  S->tasks.push_back(k);
  return (int)S->tasks.size() - 1;
}
using Fut = std::vector<std::pair<int, std::future<int>>>;
void settle(Fut &fs) {
  for (auto &[id, f] : fs) {
    bool ready = patient([&] { return f.wait_for(ms(0)) == std::future_status::ready; });
    SIM_CHECK(ready, "task-lost", "task %d was accepted and never ran", id);
    bool th;
    { sim::NoPreempt g; th = S->tasks[id].throws; SIM_CHECK(S->tasks[id].ran == 1, "value-without-run", "task %d did not run and has a result", id); }
    try {
      int v = f.get();
      SIM_CHECK(!th && v == id * 3, "wrong-value", "task %d gives %d", id, v);
    } catch (const std::runtime_error &e) {
      SIM_CHECK(th && e.what() == "t" + std::to_string(id), "wrong-exception", "task %d fails with %s", id, e.what());
    }
  }
}
}  // namespace

SCENARIO(sys_pool) {
  auto wp = std::make_unique<SW>();
  S = wp.get();
  int n = 1 + sim::choose(3);
  S->limit = n;
  auto pool = std::make_unique<plain::ThreadPool>(n);
  Fut all;
  bool nested = sim::choose(2);
  auto *pp = pool.get();
  if (sim::choose(5) == 4) {
    // All its threads can work at once.
    auto in = std::make_shared<int>(0);
    for (int i = 0; i < n; ++i)
      pp->enqueue([in, n] {
        { sim::NoPreempt g; ++*in; }
        sim::wait_until([&] { return *in == n; }, 200 * kSec, kMs);
      });
    SIM_CHECK(patient([&] { return *in == n; }), "too-little-concurrency", "%d tasks run at once on %d threads", *in, n);
    sim::probe("rendezvous");
  }
  std::map<int, std::vector<int>> given;   // by caller, in order
  bool closing = false;
  int chain = sim::choose(4) == 3 ? 3 + sim::choose(4) : 0;   // a task that gives the next one, until the pool says no
  std::function<int(int, int)> link;
  link = [&](int id, int left) -> int {
    if (left > 0) {
      int in = next_task();
      try {
        auto f = pp->enqueue(link, in, left - 1);
        sim::NoPreempt g;
        all.emplace_back(in, std::move(f));
      } catch (const std::runtime_error &) {
        sim::NoPreempt g;
        SIM_CHECK(closing, "refused-while-open", "a pool that is not being destroyed refuses a task");
        sim::probe("chain_refused");
      }
    }
    maybe_pause(300);
    return task(id);
  };
  if (chain) { int id = next_task(); auto f = pp->enqueue(link, id, chain); sim::NoPreempt g; all.emplace_back(id, std::move(f)); }
  bool wait_first = sim::choose(2);
  {
    std::vector<std::unique_ptr<Thr>> ts;
    int k = 1 + sim::choose(3);
    for (int i = 0; i < k; ++i)
      ts.push_back(std::make_unique<Thr>([&, i] {
        Fut mine;
        int m = sim::choose(8);
        for (int j = 0; j < m; ++j) {
          int id = next_task();
          if (nested && sim::choose(3) == 2) {
            int in = next_task();
            auto fp = std::make_shared<std::future<int>>();
            mine.emplace_back(id, pp->enqueue([pp, id, in, &all, &closing] {
              try {
                auto f = pp->enqueue(task, in);
                sim::NoPreempt g;
                all.emplace_back(in, std::move(f));
              } catch (const std::runtime_error &) {
                sim::NoPreempt g;
                SIM_CHECK(closing, "refused-while-open", "a pool that is not being destroyed refuses a task");
                sim::probe("nested_refused");
              }
              return task(id);
            }));
          } else { mine.emplace_back(id, pp->enqueue(task, id)); sim::NoPreempt g; given[i].push_back(id); }
          maybe_pause(100);
        }
        if (wait_first) settle(mine);
        else { sim::NoPreempt g; for (auto &p : mine) all.push_back(std::move(p)); }
      }));
  }
  if (sim::choose(2)) maybe_pause(500);
  { sim::NoPreempt g; closing = true; }
  pool.reset();
  S->gone = true;
  // Everything accepted ran before the pool was gone.
  for (auto &[id, f] : all) SIM_CHECK(f.wait_for(ms(0)) == std::future_status::ready, "task-lost", "task %d was accepted and did not run before the pool was destroyed", id);
  settle(all);
  if (n == 1)
    for (auto &[i, ids] : given) {
      size_t at = 0;
      for (int id : S->order) if (at < ids.size() && ids[at] == id) ++at;
      SIM_CHECK(at == ids.size(), "order-inverted", "the tasks of a caller did not start in its order on one thread");
    }
  sim::probe("pool");
}

SCENARIO(sys_queue) {
  auto wp = std::make_unique<SW>();
  S = wp.get();
  int workers = 1 + sim::choose(2);
  S->limit = workers + 1;
  auto q = std::make_unique<plain::TaskQueue>();
  Fut all;
  std::map<int, std::vector<int>> given;   // by producer, in order
  bool stop = false;
  bool closing = sim::choose(3) == 2;
  {
    std::vector<std::unique_ptr<Thr>> ts;
    int k = 1 + sim::choose(3), left = k;
    for (int i = 0; i < k; ++i)
      ts.push_back(std::make_unique<Thr>([&, i] {
        int m = sim::choose(8);
        for (int j = 0; j < m; ++j) {
          int id = next_task();
          auto f = q->enqueue(task, id);
          { sim::NoPreempt g; given[i].push_back(id); all.emplace_back(id, std::move(f)); }
          maybe_pause(100);
        }
        sim::NoPreempt g;
        if (--left == 0) stop = true;
      }));
    for (int i = 0; i < workers; ++i)
      ts.push_back(std::make_unique<Thr>([&] {
        for (;;) {
          bool last;
          size_t had, ran = 0;
          { sim::NoPreempt g; last = stop; had = all.size(); }
          if (sim::choose(2)) q->work_one();
          else {
            q->work_all();
            // what was there before is taken, by this or another thread
            sim::NoPreempt g;
            for (size_t x = 0; x < had; ++x) ran += S->tasks[all[x].first].ran;
            if (workers == 1) SIM_CHECK(ran == had, "task-lost", "%zu of %zu tasks ran after all were worked", ran, had);
          }
          if (last) { if (!closing) q->work_all(); break; }
          maybe_pause(100);
        }
      }));
  }
  q.reset();    // runs what is left
  S->gone = true;
  for (auto &[id, f] : all) SIM_CHECK(f.wait_for(ms(0)) == std::future_status::ready, "task-lost", "task %d was accepted and did not run before the queue was destroyed", id);
  settle(all);
  if (workers == 1)
    for (auto &[i, ids] : given) {
      size_t at = 0;
      for (int id : S->order) if (at < ids.size() && ids[at] == id) ++at;
      SIM_CHECK(at == ids.size(), "order-inverted", "the tasks of a producer did not start in its order");
    }
  sim::probe("queue");
}

// Threads that call a function until it says no, or until they are stopped.
SCENARIO(sys_thread) {
  sim::config().p_stall /= 4;
  plain::Logger::set_output([](const std::string_view &) {});
  plain::Logger::set_flush([] {});
  struct T { int calls = 0, want = 0; bool told = false, over = false; };
  auto tp = std::make_unique<std::deque<T>>();
  auto &ts = *tp;
  {
    std::vector<std::unique_ptr<Thr>> cs;
    int n = 1 + sim::choose(3);
    for (int i = 0; i < n; ++i)
      cs.push_back(std::make_unique<Thr>([&] {
        int m = 1 + sim::choose(3);
        for (int k = 0; k < m; ++k) {
          T *t;
          { sim::NoPreempt g; ts.emplace_back(); t = &ts.back(); t->want = 1 + sim::choose(6); }
          bool endless = sim::choose(3) == 2;
          bool itself = !endless && sim::choose(5) == 4;   // stops itself instead of saying no
          bool once = !endless && sim::choose(4) == 3;
          plain::thread_t th;
          {
            std::string name = "loop" + std::to_string(sim::choose(1000));
            if (once) th = plain::thread::create(name, [t] { sim::NoPreempt g; ++t->calls; });
            else th = plain::thread::create(name, [t, endless, itself](int a, const std::string &b) -> bool {
              SIM_CHECK(a == t->want && b == std::to_string(a), "wrong-argument", "the function of a thread is called with %d and '%s'", a, b.c_str());
              SIM_CHECK(plain::ThreadCollect::count() >= 1, "thread-count", "a thread runs and %d are counted", plain::ThreadCollect::count());
              maybe_pause(200);
              if (itself) {
                bool last;
                { sim::NoPreempt g; last = t->calls + 1 == t->want; }
                if (last) plain::thread::stop();
              }
              sim::NoPreempt g;
              SIM_CHECK(!t->over, "called-after-end", "the function of a thread that said no is called again");
              ++t->calls;
              if (endless) return true;
              t->over = t->calls == t->want;
              return itself || !t->over;
            }, t->want, std::to_string(t->want));
            if (sim::choose(2)) name.assign(40, 'x');
          }
          int at_stop = -1;
          if (endless) {
            maybe_pause(2000);
            SIM_CHECK(plain::thread::is_running(th) && !plain::thread::is_stopping(th), "thread-status", "a thread that was not stopped is not said to run");
            plain::thread::stop(th);
            SIM_CHECK(!plain::thread::is_running(th) && plain::thread::is_stopping(th), "thread-status", "a stopped thread is said to run");
            sim::NoPreempt g;
            at_stop = t->calls;
          } else if (sim::choose(6) == 5) {
            t->told = true;
            plain::thread::stop(th);
            sim::NoPreempt g;
            at_stop = t->calls;
          }
          SIM_CHECK(th.joinable(), "thread-lost", "a created thread can not be joined");
          bool ended = false;
          {
            Thr j([&] { th.join(); sim::NoPreempt g; ended = true; });
            SIM_CHECK(patient([&] { return ended; }), "never-stops", endless ? "a thread that was stopped goes on" : "a thread whose function said no goes on");
          }
          sim::NoPreempt g;
          // the call it was in, or was about to make
          if (at_stop >= 0) SIM_CHECK(t->calls <= at_stop + 1, "call-count", "a stopped thread makes %d more calls", t->calls - at_stop);
          if (!endless && !t->told) SIM_CHECK(t->calls == (once ? 1 : t->want), "call-count", "a function that says no at call %d is called %d times", once ? 1 : t->want, t->calls);
          sim::probe(endless ? "stopped" : once ? "once" : "said_no");
        }
      }));
    // Others use the globals meanwhile, as every line of a log does.
    int m = sim::choose(3);
    for (int i = 0; i < m; ++i)
      cs.push_back(std::make_unique<Thr>([&, i] {
        for (int k = 0; k < 12; ++k) {
          switch (sim::choose(3)) {
            case 0: LOG_INFO << "line " << k; break;
            case 1: { bool p = true == GLOBALS["log.print"]; SIM_CHECK(!p, "global-value", "a global changed by itself"); break; }
            default: {
              auto key = "k" + std::to_string(i) + "." + std::to_string(k);
              GLOBALS[key] = (int64_t)k;
              SIM_CHECK(GLOBALS[key].get<int64_t>() == k, "global-value", "a global that was set to %d is %lld", k, (long long)GLOBALS[key].get<int64_t>());
            }
          }
          maybe_pause(200);
        }
      }));
  }
  SIM_CHECK(plain::ThreadCollect::count() == 0, "thread-count", "no thread runs and %d are counted", plain::ThreadCollect::count());
}

// Variables that several threads use: as if one after another.
SCENARIO(sys_var) {
  using plain::variable_t;
  auto vp = std::make_unique<variable_t>();
  variable_t &v = *vp;
  int kind = sim::choose(6);
  int n = 2 + sim::choose(3);
  std::vector<std::unique_ptr<Thr>> ts;
  if (kind == 0) {          // counting
    v = (int64_t)100;
    int64_t sum = 100;
    for (int i = 0; i < n; ++i)
      ts.push_back(std::make_unique<Thr>([&] {
        int m = 1 + sim::choose(8);
        for (int k = 0; k < m; ++k) {
          int op = sim::choose(5);
          switch (op) { case 0: ++v; break; case 1: v++; break; case 2: --v; break; case 3: v--; break; default: (void)v.get<int64_t>(); }
          sim::NoPreempt g;
          if (op < 2) ++sum; else if (op < 4) --sum;
        }
      }));
    ts.clear();
    SIM_CHECK(v.get<int64_t>() == sum, "update-lost", "a variable is %lld after changes that make it %lld", (long long)v.get<int64_t>(), (long long)sum);
  } else if (kind == 1) {   // sums
    v = 0.0;
    double sum = 0;
    for (int i = 0; i < n; ++i)
      ts.push_back(std::make_unique<Thr>([&] {
        int m = 1 + sim::choose(8);
        for (int k = 0; k < m; ++k) {
          int32_t d = 1 + (int32_t)sim::choose(9);
          bool neg = sim::choose(2), var = sim::choose(2);
          if (var) { variable_t o{d}; if (neg) v -= o; else v += o; }
          else { if (neg) v -= d; else v += d; }
          sim::NoPreempt g;
          sum += neg ? -d : d;
        }
      }));
    ts.clear();
    SIM_CHECK(v.get<double>() == sum, "update-lost", "a variable is %g after changes that make it %g", v.get<double>(), sum);
  } else if (kind == 5) {   // products, exact ones
    v = 3.0;
    double want = 3;
    for (int i = 0; i < n; ++i)
      ts.push_back(std::make_unique<Thr>([&] {
        int m = 1 + sim::choose(8);
        for (int k = 0; k < m; ++k) {
          int32_t d = 1 << sim::choose(3);
          bool div = sim::choose(2), var = sim::choose(2);
          if (var) { variable_t o{d}; if (div) v /= o; else v *= o; }
          else { if (div) v /= d; else v *= d; }
          sim::NoPreempt g;
          want = div ? want / d : want * d;
        }
      }));
    ts.clear();
    SIM_CHECK(v.get<double>() == want, "update-lost", "a variable is %g after changes that make it %g", v.get<double>(), want);
  } else if (kind == 2) {   // text
    auto text = [](int k) { return std::string(20 + k % 7 * 9, (char)('a' + k % 26)); };
    v = text(0);
    for (int i = 0; i < n; ++i)
      ts.push_back(std::make_unique<Thr>([&, i] {
        int m = 1 + sim::choose(8);
        for (int k = 0; k < m; ++k) {
          if (sim::choose(2)) {
            if (sim::choose(2)) v = text(sim::choose(26));
            else { variable_t o{text(sim::choose(26))}; v = o; SIM_CHECK(o.get<std::string>().size() >= 20, "text-torn", "a variable lost its text"); }
          } else if (sim::choose(2)) {
            auto s = v.get<std::string>();
            SIM_CHECK(!s.empty() && s == std::string(s.size(), s[0]), "text-torn", "a variable holds a text nobody stored");
          } else {
            variable_t c{v};
            auto s = c.get<std::string>();
            SIM_CHECK(!s.empty() && s == std::string(s.size(), s[0]), "text-torn", "a copy of a variable holds a text nobody stored");
            (void)(c == v);
          }
          (void)i;
        }
      }));
    ts.clear();
  } else if (kind == 3) {   // two variables assigned to each other
    auto up = std::make_unique<variable_t>();
    variable_t &u = *up;
    v = std::string(30, 'v');
    u = std::string(40, 'u');
    for (int i = 0; i < n; ++i)
      ts.push_back(std::make_unique<Thr>([&] {
        int m = 1 + sim::choose(6);
        for (int k = 0; k < m; ++k) {
          switch (sim::choose(6)) {
            case 0: v = u; break;
            case 1: u = v; break;
            case 2: { auto *p = &v; v = *p; break; }
            case 4: { bool eq = u == v, less = v < u; (void)less; (void)eq; SIM_CHECK(v == v && !(u != u) && !(u < u), "order-inverted", "a variable is not equal to itself"); break; }
            case 5: { std::ostringstream os; os << v; auto s = os.str(); SIM_CHECK(s == std::string(30, 'v') || s == std::string(40, 'u'), "text-torn", "a variable prints a text nobody stored"); break; }
            default: { auto s = u.get<std::string>(); SIM_CHECK(s == std::string(30, 'v') || s == std::string(40, 'u'), "text-torn", "a variable holds a text nobody stored"); }
          }
        }
      }));
    ts.clear();
  } else {                  // order, one thread
    int64_t a = (int64_t)sim::choose(5), b = (int64_t)sim::choose(5);
    variable_t x{a}, y{b};
    SIM_CHECK((x < y) == (a < b) && (x > y) == (a > b) && (x == y) == (a == b) && (x != y) == (a != b), "order-inverted", "variables %lld and %lld are compared wrongly", (long long)a, (long long)b);
  }
  sim::probe("var");
}
