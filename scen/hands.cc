// Handles: results, promises, shared and lazy results that are made, moved, assigned over,
// copied, settled, asked and dropped in any order by one thread; a model of who holds what decides.
#include "common.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/lazy.h"
#include "plain/concurrency/result/make.h"
#include "plain/concurrency/result/promise.h"
#include "plain/concurrency/result/resume_on.h"
#include "plain/concurrency/result/shared.h"

using namespace scen;
using namespace plain::concurrency;
namespace r = plain::concurrency::result;

namespace {
std::vector<int> *g_alive;           // by id: values, exceptions or frames that exist
struct Obj {                         // a counted thing
  int id;
  explicit Obj(int i) : id(i) { add(1); }
  Obj(const Obj &o) : id(o.id) { add(1); }
  Obj(Obj &&o) noexcept : id(o.id) { add(1); }
  Obj &operator=(const Obj &) = delete;
  ~Obj() { add(-1); }
  void add(int n) const { sim::NoPreempt g; (*g_alive)[id] += n; }
};
enum St { OPEN, VALUE, EXC, BROKEN };
struct Node {                        // one result
  St st = OPEN;
  int consumers = 0;                 // handles that hold it
  bool fetched = false;              // its result was taken from the promise
  bool loose = false;                // settled before that: it lives as long as the promise object
};
template <class F> bool throws(F f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}
struct Thrown : std::runtime_error { Obj o; explicit Thrown(int i) : std::runtime_error("thrown"), o(i) {} };

template <class H> struct Game {
  static constexpr int N = 4;
  H h[N];
  int in[N];                         // what slot k holds, -1: nothing
  ResultPromise<Obj> p[N];
  int pin[N];
  std::vector<Node> nodes;
  std::vector<int> alive;
  Game() {
    g_alive = &alive;
    for (int k = 0; k < N; ++k) { in[k] = pin[k] = -1; ResultPromise<Obj> gone(std::move(p[k])); }
  }
  int fresh() { nodes.emplace_back(); alive.push_back(0); return (int)nodes.size() - 1; }
  void let_go(int k) { if (in[k] >= 0) { --nodes[in[k]].consumers; in[k] = -1; } }
  void promise_gone(int k) {         // the promise in slot k is dropped or assigned over
    if (pin[k] < 0) return;
    auto &n = nodes[pin[k]];
    if (n.st == OPEN) { n.st = BROKEN; if (!n.fetched) n.consumers = 0; }
    pin[k] = -1;
  }
  void settle(int k) {
    int id = pin[k];
    auto &n = nodes[id];
    switch (sim::choose(5)) {
      case 0: p[k].set_result(id); n.st = VALUE; break;
      case 1: p[k].set_exception(std::make_exception_ptr(Thrown(id))); n.st = EXC; break;
      case 2: p[k].set_from_function([id] { return Obj(id); }); n.st = VALUE; break;
      case 3: p[k].set_from_function([id]() -> Obj { throw Thrown(id); }); n.st = EXC; break;
      default: {
        SIM_CHECK(throws([&] { p[k].set_exception(nullptr); }), "misuse-accepted", "a result is settled with no exception");
        SIM_CHECK(static_cast<bool>(p[k]), "misuse-accepted", "a promise is spent by a call that failed");
        return;
      }
    }
    SIM_CHECK(!p[k], "promise-reusable", "a promise is usable after it was settled");
    pin[k] = -1;
  }
  void misuse(int k) {
    if (pin[k] < 0) {
      SIM_CHECK(!p[k], "promise-reusable", "an empty promise says it is not");
      SIM_CHECK(throws([&] { p[k].set_result(0); }) && throws([&] { (void)p[k].get_result(); }), "misuse-accepted", "an empty promise is usable");
    } else if (nodes[pin[k]].fetched) {
      SIM_CHECK(throws([&] { (void)p[k].get_result(); }), "misuse-accepted", "a promise gives its result twice");
    }
  }
  void move_promise(int a, int b) {
    if (a == b) return;
    promise_gone(b);
    p[b] = std::move(p[a]);
    pin[b] = pin[a];
    pin[a] = -1;
  }
  template <class G> void outcome(int id, G get) {
    auto &n = nodes[id];
    try {
      const Obj &o = get();
      SIM_CHECK(n.st == VALUE && o.id == id, "wrong-value", "result %d (%d) gives value %d", id, n.st, o.id);
    } catch (const Thrown &e) {
      SIM_CHECK(n.st == EXC && e.o.id == id, "wrong-outcome", "result %d (%d) gives exception %d", id, n.st, e.o.id);
    } catch (const std::runtime_error &) {
      SIM_CHECK(n.st == BROKEN, "wrong-outcome", "result %d (%d) is interrupted", id, n.st);
    }
  }
  void check_handles() {
    for (int k = 0; k < N; ++k) {
      SIM_CHECK(static_cast<bool>(h[k]) == (in[k] >= 0), "handle-state", "a handle that holds %d says it is %s", in[k], h[k] ? "not empty" : "empty");
      SIM_CHECK(static_cast<bool>(p[k]) == (pin[k] >= 0), "handle-state", "a promise of %d says it is %s", pin[k], p[k] ? "not empty" : "empty");
      if (in[k] < 0) { SIM_CHECK(throws([&] { (void)h[k].status(); }), "misuse-accepted", "an empty handle has a status"); continue; }
      static const ResultStatus want[] = {ResultStatus::Idle, ResultStatus::Value, ResultStatus::Exception, ResultStatus::Exception};
      SIM_CHECK(h[k].status() == want[nodes[in[k]].st], "wrong-status", "result %d (%d) is of status %d", in[k], nodes[in[k]].st, (int)h[k].status());
    }
  }
  void check_alive(bool last = false) {
    for (size_t i = 0; i < nodes.size(); ++i) {
      if (nodes[i].loose && !last) continue;
      bool held = nodes[i].consumers > 0 && (nodes[i].st == VALUE || nodes[i].st == EXC);
      SIM_CHECK((alive[i] > 0) == held, held ? "value-lost" : "value-leaked", "what result %zu (%d) holds is %s, %d handles have it", i, nodes[i].st, alive[i] ? "alive" : "gone", nodes[i].consumers);
      SIM_CHECK(alive[i] <= 1, "value-leaked", "what result %zu holds exists %d times", i, alive[i]);
    }
  }
  void end() {
    for (int k = 0; k < N; ++k) { promise_gone(k); ResultPromise<Obj> gone(std::move(p[k])); }
    for (int k = 0; k < N; ++k) { let_go(k); H gone(std::move(h[k])); }
    check_alive(true);
  }
};
}  // namespace

// A slot, rather one that holds something.
static int pick(const int *v, int n) {
  int k = (int)sim::choose((uint32_t)n);
  for (int t = 0; t < 2 && v[k] < 0; ++t) k = (int)sim::choose((uint32_t)n);
  return k;
}

SCENARIO(res_hands) {
  auto gp = std::make_unique<Game<Result<Obj>>>();
  auto &g = *gp;
  for (int i = 0, n = 3 + sim::choose(60); i < n; ++i) {
    int a = sim::choose(g.N), b = sim::choose(g.N);
    switch (sim::choose(9)) {
      case 0: case 1: {                             // a new promise, over what is there
        ResultPromise<Obj> q;
        g.promise_gone(a);
        g.p[a] = std::move(q);
        g.pin[a] = g.fresh();
        g.nodes[g.pin[a]].consumers = 1;            // its own
        break;
      }
      case 2: case 3:                               // its result, over what is there
        a = pick(g.pin, g.N);
        if (g.pin[a] < 0 || g.nodes[g.pin[a]].fetched) { g.misuse(a); break; }
        g.let_go(b);
        g.h[b] = g.p[a].get_result();
        g.in[b] = g.pin[a];
        g.nodes[g.in[b]].fetched = true;
        break;
      case 4:
        a = pick(g.pin, g.N);
        if (g.pin[a] < 0) { g.misuse(a); break; }
        g.settle(a);
        for (auto &x : g.nodes) if (x.st != OPEN && !x.fetched) { x.consumers = 0; x.loose = true; }
        break;
      case 5: g.move_promise(a, b); break;
      case 6:
        if (a != b) { g.let_go(b); g.in[b] = g.in[a]; g.in[a] = -1; }
        g.h[b] = std::move(g.h[a]);
        break;
      case 7:
        if (sim::choose(2)) { std::swap(g.h[a], g.h[b]); std::swap(g.in[a], g.in[b]); break; }
        g.let_go(a);
        { Result<Obj> gone(std::move(g.h[a])); }
        break;
      default: {
        a = pick(g.in, g.N);
        int id = g.in[a];
        if (id < 0) { SIM_CHECK(throws([&] { g.h[a].get(); }) && throws([&] { g.h[a].wait(); }) && throws([&] { (void)g.h[a].resolve(); }), "misuse-accepted", "an empty result is usable"); break; }
        if (g.nodes[id].st == OPEN) {
          SIM_CHECK(g.h[a].wait_for(std::chrono::milliseconds(sim::choose(2))) == ResultStatus::Idle, "wrong-status", "result %d is ready though nobody settled it", id);
          break;
        }
        g.h[a].wait();
        g.outcome(id, [&, v = std::unique_ptr<Obj>()]() mutable -> const Obj & { v = std::make_unique<Obj>(g.h[a].get()); return *v; });
        g.let_go(a);
        sim::probe("taken");
      }
    }
    g.check_handles();
    g.check_alive();
  }
  g.end();
}

SCENARIO(shared_hands) {
  using S = r::Shared<Obj>;
  auto gp = std::make_unique<Game<S>>();
  auto &g = *gp;
  for (int i = 0, n = 3 + sim::choose(60); i < n; ++i) {
    int a = sim::choose(g.N), b = sim::choose(g.N);
    switch (sim::choose(9)) {
      case 0: case 1: {
        ResultPromise<Obj> q;
        g.promise_gone(a);
        g.let_go(b);
        g.h[b] = S(q.get_result());
        g.p[a] = std::move(q);
        g.pin[a] = g.in[b] = g.fresh();
        g.nodes[g.in[b]].fetched = true;
        g.nodes[g.in[b]].consumers = 1;
        break;
      }
      case 2: a = pick(g.pin, g.N); if (g.pin[a] < 0) g.misuse(a); else g.settle(a); break;
      case 3: g.move_promise(a, b); break;
      case 4:                                       // copied, over what is there
        if (g.in[a] != g.in[b]) {
          g.let_go(b);
          g.in[b] = g.in[a];
          if (g.in[b] >= 0) ++g.nodes[g.in[b]].consumers;
        }
        g.h[b] = g.h[a];
        break;
      case 5:
        if (g.in[a] == g.in[b]) break;              // (what is left of the moved one is not said)
        g.let_go(b);
        g.in[b] = g.in[a];
        g.in[a] = -1;
        g.h[b] = std::move(g.h[a]);
        break;
      case 6: { g.let_go(a); S gone(std::move(g.h[a])); break; }
      case 7: { S x(g.h[a]), y(std::move(x)); SIM_CHECK(!x && static_cast<bool>(y) == (g.in[a] >= 0), "handle-state", "a moved shared result is not empty"); break; }
      default: {
        a = pick(g.in, g.N);
        int id = g.in[a];
        if (id < 0) { SIM_CHECK(throws([&] { g.h[a].get(); }) && throws([&] { g.h[a].wait(); }) && throws([&] { (void)g.h[a].resolve(); }), "misuse-accepted", "an empty result is usable"); break; }
        if (g.nodes[id].st == OPEN) {
          SIM_CHECK(g.h[a].wait_for(std::chrono::milliseconds(sim::choose(2))) == ResultStatus::Idle, "wrong-status", "result %d is ready though nobody settled it", id);
          break;
        }
        const Obj *first = nullptr;
        for (int k = 0; k < 2; ++k)
          g.outcome(id, [&]() -> const Obj & {
            const Obj &o = g.h[a].get();
            SIM_CHECK(!first || first == &o, "other-object", "a shared result gives another object the second time");
            first = &o;
            return o;
          });
        sim::probe("taken");
      }
    }
    g.check_handles();
    g.check_alive();
  }
  g.end();
}

// ---- lazy ---------------------------------------------------------------------
namespace {
struct LG {
  std::shared_ptr<executor::WorkerThread> ex;
  std::vector<int> alive, started;
};
LG *lg;
LazyResult<int> lazy_body(Obj o, int how) {
  { sim::NoPreempt g; ++lg->started[o.id]; }
  if (how & 1) co_await r::resume_on(lg->ex);
  Obj local(o.id);
  if (how & 2) throw Thrown(o.id);
  co_return o.id + 1000;
}
Result<int> resolve_into(LazyResult<int> from, LazyResult<int> &to) {
  auto x = co_await from.resolve();
  to = std::move(x);
  co_return 1;
}
Result<int> await_it(LazyResult<int> from) { co_return co_await from; }
// A chain that is given up while its innermost part waits: all frames go with the one that is destroyed.
struct Never { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<>) {} void await_resume() {} };
LazyResult<int> stuck(Obj o, int depth, uint32_t how) {
  Obj local(o.id);
  if (depth == 0) co_await Never{};
  else if (how >> depth & 1) { auto l = stuck(o, depth - 1, how); (void)co_await l; }
  else { auto l = stuck(o, depth - 1, how); (void)co_await l.resolve(); }
  co_return 0;
}
struct Root {
  struct promise_type {
    Root get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() {}
  };
  std::coroutine_handle<promise_type> h;
};
Root give_up(LazyResult<int> l) { (void)co_await l; }
}  // namespace

SCENARIO(lazy_hands) {
  auto lp = std::make_unique<LG>();
  LG &l = *lp;
  lg = &l;
  g_alive = &l.alive;
  l.ex = std::make_shared<executor::WorkerThread>();
  constexpr int N = 4;
  LazyResult<int> h[N];
  int in[N] = {-1, -1, -1, -1};
  std::vector<int> how, ran;         // by id; ran: the body was started
  auto held = [&](int id) { for (int k : in) if (k == id) return true; return false; };
  auto check = [&] {
    sim::NoPreempt g;
    for (size_t i = 0; i < how.size(); ++i) {
      SIM_CHECK(l.started[i] == ran[i], l.started[i] > ran[i] ? "lazy-eager" : "lazy-lost", "the body of lazy result %zu ran %d times instead of %d", i, l.started[i], ran[i]);
      SIM_CHECK((l.alive[i] > 0) == held((int)i), held((int)i) ? "value-lost" : "frame-leaked", "the frame of lazy result %zu is %s though a handle %s", i, l.alive[i] ? "alive" : "gone", held((int)i) ? "has it" : "does not have it");
    }
    for (int k = 0; k < N; ++k) {
      SIM_CHECK(static_cast<bool>(h[k]) == (in[k] >= 0), "handle-state", "a lazy result that holds %d says it is %s", in[k], h[k] ? "not empty" : "empty");
      if (in[k] < 0) { SIM_CHECK(throws([&] { (void)h[k].status(); }), "misuse-accepted", "an empty lazy result has a status"); continue; }
      ResultStatus want = !ran[in[k]] ? ResultStatus::Idle : how[in[k]] & 2 ? ResultStatus::Exception : ResultStatus::Value;
      SIM_CHECK(h[k].status() == want, "wrong-status", "lazy result %d is of status %d", in[k], (int)h[k].status());
    }
  };
  auto settled = [&](Result<int> &o) { eventually([&] { return o.status() != ResultStatus::Idle; }, "consumer-hangs", "a lazy result completes"); };
  // The frame of a body that hopped ends on the other thread, a moment after its outcome is known.
  auto quiet = [&](int id) { SIM_CHECK(patient([&] { return l.alive[id] == 0; }), "frame-leaked", "the frame of lazy result %d stays", id); };
  for (int i = 0, n = 3 + sim::choose(40); i < n; ++i) {
    int a = pick(in, N), b = sim::choose(N), id = in[a];
    switch (sim::choose(9)) {
      case 8: {
        int id = (int)how.size();
        { sim::NoPreempt g; l.alive.push_back(0); l.started.push_back(0); how.push_back(0); ran.push_back(0); }
        auto root = give_up(stuck(Obj(id), (int)sim::choose(4), sim::choose(16)));
        SIM_CHECK(l.alive[id] > 0, "value-lost", "a chain that waits has lost its frames");
        root.h.destroy();
        SIM_CHECK(l.alive[id] == 0, "frame-leaked", "a chain that was given up leaves %d objects of its frames", l.alive[id]);
        sim::probe("given_up");
        break;
      }
      case 0: case 1:
        { sim::NoPreempt g; l.alive.push_back(0); l.started.push_back(0); how.push_back(sim::choose(4)); ran.push_back(0); }
        in[a] = (int)how.size() - 1;
        h[a] = lazy_body(Obj(in[a]), how.back());
        break;
      case 2:
        if (a != b) { in[b] = in[a]; in[a] = -1; }
        h[b] = std::move(h[a]);
        break;
      case 3: std::swap(h[a], h[b]); std::swap(in[a], in[b]); break;
      case 4: { in[a] = -1; LazyResult<int> gone(std::move(h[a])); break; }
      case 5:
        if (id < 0) { SIM_CHECK(throws([&] { (void)h[a].run(); }) && throws([&] { (void)h[a].resolve(); }), "misuse-accepted", "an empty lazy result is usable"); break; }
        if (b != a) {                               // settled, and kept in a slot
          in[a] = -1;
          ran[id] = 1;
          int old = in[b];
          in[b] = id;
          auto o = resolve_into(std::move(h[a]), h[b]);
          settled(o);
          SIM_CHECK(o.get() == 1, "wrong-value", "resolving a lazy result failed");
          if (old >= 0) quiet(old);
          sim::probe("resolved");
        }
        break;
      default: {
        if (id < 0) break;
        bool again = ran[id];
        ran[id] = 1;
        in[a] = -1;
        auto o = sim::choose(2) ? h[a].run() : await_it(std::move(h[a]));
        settled(o);
        try {
          int v = o.get();
          SIM_CHECK(!(how[id] & 2) && v == id + 1000, "wrong-value", "lazy result %d gives %d", id, v);
        } catch (const Thrown &e) {
          SIM_CHECK((how[id] & 2) && e.o.id == id, "wrong-outcome", "lazy result %d gives exception %d", id, e.o.id);
        }
        if (again) sim::probe("asked_after_resolve");
        quiet(id);
      }
    }
    check();
  }
  for (int k = 0; k < N; ++k) { in[k] = -1; LazyResult<int> gone(std::move(h[k])); }
  check();
  l.ex->shutdown();
}
