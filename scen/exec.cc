// Executor scenarios: conservation of tasks, shutdown, ordering, affinity.
#include "common.h"
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/basic.h"
#include <atomic>
#include <coroutine>
#include <span>

using namespace scen;
using namespace plain::concurrency;

namespace {

enum Kind { INLINE, MANUAL, THREAD, WORKER, POOL };
const char *kKind[] = {"inline", "manual", "thread", "worker", "pool"};

// One unit of work and everything the oracle knows about it.
struct Rec {
  int id = 0;
  int producer = 0;      // issuing simulated thread
  int order = 0;         // issue order within that producer
  bool nested = false;
  bool bulk = false;
  bool submit = false;
  bool throws = false;
  enum { ISSUED, ACCEPTED, REJECTED } st = ISSUED;
  int started = 0, finished = 0;
  int thread = -1;       // where it ran
  int live = 0;          // live copies of the callable's token
  uint64_t issue_seq = 0, accept_seq = 0, start_seq = 0;
  bool broken = false;   // its result reported an interruption
};

struct World {
  Kind kind;
  std::vector<std::unique_ptr<Rec>> recs;
  std::deque<std::pair<int, Result<int>>> results;
  bool shutdown_begun = false, shutdown_done = false;
  uint64_t begin_seq = ~0ull;      // shutdown() is about to be called
  uint64_t shutdown_seq = ~0ull;   // shutdown() had returned at this point
  int running = 0, max_running = 0;
  int limit = 1 << 30;
  std::map<int, int> issue_count;
  std::set<int> worker_ids;
  uint32_t throw_rate = 0, nested_rate = 0;
  int budget = 0;        // nested tasks still allowed
  bool reenter = false;  // dropped callables call back into the executor
  executor::Basic *ex = nullptr;
};
World *W;
void reenter(Rec *r);

struct Token {
  Rec *r;
  explicit Token(Rec *x) : r(x) { sim::NoPreempt g; ++r->live; }
  Token(const Token &o) : r(o.r) { sim::NoPreempt g; if (r) ++r->live; }
  Token(Token &&o) noexcept : r(o.r) { o.r = nullptr; }
  Token &operator=(const Token &) = delete;
  ~Token() {
    if (!r) return;
    bool call;
    { sim::NoPreempt g; call = --r->live == 0 && r->started == 0 && W->reenter && W->ex; }
    if (call) reenter(r);
  }
};

struct Boom {};

void issue(executor::Basic &ex, bool nested);

int body(Rec *r, executor::Basic &ex) {
  {
    sim::NoPreempt g;
    ++r->started;
    r->thread = sim::tid();
    r->start_seq = sim::seqno();
    sim::event("run %d", r->id);
    SIM_CHECK(r->started == 1, "task-ran-twice", "task %d started %d times on %s executor",
              r->id, r->started, kKind[W->kind]);
    SIM_CHECK(r->st != Rec::REJECTED || r->bulk, "rejected-task-ran",
              "task %d ran although its submission was refused (%s)", r->id, kKind[W->kind]);
    SIM_CHECK(r->issue_seq < W->shutdown_seq, "accepted-after-shutdown",
              "task %d was issued after shutdown() had returned and still ran (%s)", r->id, kKind[W->kind]);
    SIM_CHECK(!W->shutdown_done, "task-ran-after-shutdown",
              "task %d started after shutdown() had returned (%s)", r->id, kKind[W->kind]);
    ++W->running;
    if (W->running > W->max_running) W->max_running = W->running;
    SIM_CHECK(W->running <= W->limit, "too-much-concurrency",
              "%d tasks run at once on an executor of concurrency %d (%s)",
              W->running, W->limit, kKind[W->kind]);
    W->worker_ids.insert(r->thread);
  }
  maybe_pause();
  bool nest;
  {
    sim::NoPreempt g;
    nest = W->budget > 0 && sim::chance(W->nested_rate);
    if (nest) --W->budget;
  }
  if (nest) issue(ex, true);
  {
    sim::NoPreempt g;
    ++r->finished;
    --W->running;
  }
  if (r->throws) throw Boom{};
  return r->id * 7 + 1;
}

Rec *new_rec(bool nested) {
  sim::NoPreempt g;
  auto r = std::make_unique<Rec>();
  r->id = static_cast<int>(W->recs.size());
  r->producer = sim::tid();
  r->order = W->issue_count[r->producer]++;
  r->nested = nested;
  r->throws = sim::fault(sim::F_OP_THROW, W->throw_rate);
  r->issue_seq = sim::seqno();
  Rec *p = r.get();
  W->recs.push_back(std::move(r));
  return p;
}
void accepted(Rec *r) {
  sim::NoPreempt g;
  r->st = Rec::ACCEPTED;
  r->accept_seq = sim::seqno();
}
void rejected(Rec *r) {
  sim::NoPreempt g;
  r->st = Rec::REJECTED;
  sim::event("rejected %d", r->id);
  sim::probe("submission_refused");
  SIM_CHECK(W->shutdown_begun, "refused-while-open",
            "task %d refused although shutdown was never requested (%s)", r->id, kKind[W->kind]);
  SIM_CHECK(r->started == 0 || r->bulk, "rejected-task-ran",
            "task %d ran although its submission was refused (%s)", r->id, kKind[W->kind]);
}

// A coroutine whose bare handle is given to an executor as a task.
struct Bare {
  struct promise_type {
    Bare get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() {}
  };
  std::coroutine_handle<void> h;
};
Bare bare(Token t, executor::Basic &ex) {
  body(t.r, ex);
  co_return;
}

// Issues one operation on the executor from the current thread.
void issue(executor::Basic &ex, bool nested) {
  uint32_t op = sim::choose(5);
  bool done_before;
  { sim::NoPreempt g; done_before = W->shutdown_done; }
  if (op == 4) {
    // tasks made by hand: bare coroutines, and a task that takes another's place
    Rec *r = new_rec(nested);
    r->throws = false;
    bool ok = true;
    try {
      if (sim::choose(2)) ex.enqueue(bare(Token(r), ex).h);
      else {
        Rec decoy;
        Task t([k = Token(&decoy)] { sim::fail("replaced-task-ran", "a task that was replaced by another ran"); });
        decoy.started = 1;
        Task u([k = Token(r), &ex] { body(k.r, ex); });
        t = std::move(u);
        SIM_CHECK(decoy.live == 0, "callable-leaked", "the callable of a task that was replaced lives on");
        SIM_CHECK(t && !u, "task-moved", "a task is not where it was moved to");
        ex.enqueue(std::move(t));
      }
    } catch (const std::runtime_error &) { ok = false; }
    if (ok) accepted(r); else rejected(r);
    if (done_before)
      SIM_CHECK(!ok, "accepted-after-shutdown", "enqueue accepted after shutdown() returned (%s)", kKind[W->kind]);
    return;
  }
  if (op <= 1) {
    Rec *r = new_rec(nested);
    bool ok = true;
    if (op == 0) {
      try {
        ex.post([t = Token(r), &ex] { body(t.r, ex); });
      } catch (const std::runtime_error &) { ok = false; }
      if (ok) accepted(r); else rejected(r);
      if (done_before)
        SIM_CHECK(!ok, "accepted-after-shutdown", "post accepted after shutdown() returned (%s)", kKind[W->kind]);
    } else {
      r->submit = true;
      Result<int> res;
      try {
        res = ex.submit([t = Token(r), &ex] { return body(t.r, ex); });
      } catch (const std::runtime_error &) { ok = false; }
      if (ok) {
        accepted(r);
        SIM_CHECK(static_cast<bool>(res), "empty-result", "submit returned an empty result");
        sim::NoPreempt g;
        W->results.emplace_back(r->id, std::move(res));
      } else rejected(r);
    }
    return;
  }
  int n = 1 + sim::choose(5);
  std::vector<Rec *> rs;
  for (int i = 0; i < n; ++i) {
    rs.push_back(new_rec(nested));
    rs.back()->bulk = true;
  }
  bool ok = true;
  if (op == 2) {
    auto mk = [&ex](Rec *r) { return [t = Token(r), &ex] { body(t.r, ex); }; };
    std::vector<decltype(mk(rs[0]))> fs;
    fs.reserve(n);
    for (auto *r : rs) fs.push_back(mk(r));
    try {
      ex.bulk_post(std::span(fs));
    } catch (const std::runtime_error &) { ok = false; }
  } else {
    auto mk = [&ex](Rec *r) { return [t = Token(r), &ex] { return body(t.r, ex); }; };
    std::vector<decltype(mk(rs[0]))> fs;
    fs.reserve(n);
    for (auto *r : rs) { r->submit = true; fs.push_back(mk(r)); }
    std::vector<Result<int>> res;
    try {
      res = ex.bulk_submit(std::span(fs));
    } catch (const std::runtime_error &) { ok = false; }
    if (ok) {
      SIM_CHECK(res.size() == rs.size(), "bulk-result-count", "bulk_submit of %zu tasks returned %zu results", rs.size(), res.size());
      sim::NoPreempt g;
      for (int i = 0; i < n; ++i) W->results.emplace_back(rs[i]->id, std::move(res[i]));
    }
  }
  for (auto *r : rs) { if (ok) accepted(r); else rejected(r); }
  if (done_before)
    SIM_CHECK(!ok, "accepted-after-shutdown", "bulk submission accepted after shutdown() returned (%s)", kKind[W->kind]);
}

// A task dropped without running may own a coroutine or an object whose
// destruction uses the same executor.
void reenter(Rec *r) {
  sim::probe("dropped_task_reenters");
  executor::Basic &ex = *W->ex;
  switch (sim::choose(3)) {
    case 0:
      (void)ex.shutdown_requested();
      if (W->kind == MANUAL) (void)static_cast<executor::Manual &>(ex).size();
      break;
    case 1: {
      bool go;
      { sim::NoPreempt g; go = W->budget > 0; if (go) --W->budget; }
      if (go) issue(ex, true);
      break;
    }
    default: ex.shutdown(); break;
  }
}

bool all_accepted_ran() {
  for (auto &r : W->recs)
    if (r->st == Rec::ACCEPTED && r->finished == 0) return false;
  return true;
}

// FIFO oracle for single-consumer executors: among tasks accepted by one
// producer from outside, start order equals issue order; and a task whose
// acceptance completed before another was issued starts first.
void check_fifo() {
  std::vector<Rec *> ran;
  for (auto &r : W->recs)
    if (r->started && !r->nested && r->st == Rec::ACCEPTED) ran.push_back(r.get());
  for (auto *a : ran)
    for (auto *b : ran)
      if (a != b && a->accept_seq < b->issue_seq)
        SIM_CHECK(a->start_seq < b->start_seq, "order-inverted",
                  "task %d was accepted before task %d was issued but started after it (%s)",
                  a->id, b->id, kKind[W->kind]);
      else if (a != b && a->producer == b->producer && a->order < b->order)
        SIM_CHECK(a->start_seq < b->start_seq, "order-inverted",
                  "tasks %d,%d of one producer ran in reverse order (%s)", a->id, b->id, kKind[W->kind]);
}

// Tasks that one task of a single-consumer executor enqueues there keep their
// order, and so do those of all the tasks on its thread.
void check_nested_fifo() {
  std::vector<Rec *> ran;
  for (auto &r : W->recs)
    if (r->started && r->nested && r->st == Rec::ACCEPTED) ran.push_back(r.get());
  for (auto *a : ran)
    for (auto *b : ran)
      if (a != b && a->producer == b->producer && a->order < b->order)
        SIM_CHECK(a->start_seq < b->start_seq, "order-inverted",
                  "tasks %d,%d that tasks enqueued ran in reverse order (%s)", a->id, b->id, kKind[W->kind]);
}

void settle_results() {
  // Every result handed out must be settled now: no consumer may hang.
  // (A result may own its callable, whose destruction may submit again.)
  while (!W->results.empty()) {
    auto pr = std::move(W->results.front());
    W->results.pop_front();
    Rec *r = W->recs[pr.first].get();
    try {
      int v = pr.second.get();
      SIM_CHECK(r->started == 1, "value-without-run", "task %d delivered a value but never ran", r->id);
      SIM_CHECK(!r->throws, "exception-lost", "task %d threw but its result delivered a value", r->id);
      SIM_CHECK(v == r->id * 7 + 1, "wrong-value", "task %d delivered %d", r->id, v);
    } catch (const Boom &) {
      SIM_CHECK(r->throws && r->started == 1, "wrong-exception", "task %d delivered an exception it did not throw", r->id);
    } catch (const std::exception &e) {
      SIM_CHECK(r->started == 0, "broken-after-run", "task %d ran but its result says it was interrupted (%s)", r->id, e.what());
      SIM_CHECK(W->shutdown_begun, "broken-while-open", "task %d interrupted although shutdown was never requested: %s", r->id, e.what());
      r->broken = true;
      SIM_CHECK((W->kind != THREAD && W->kind != INLINE) || r->accept_seq > W->begin_seq, "task-lost",
                "task %d was accepted before shutdown but interrupted (%s)", r->id, kKind[W->kind]);
      sim::probe("result_interrupted");
    }
  }
}

void run_executor(Kind kind) {
  World w;
  W = &w;
  w.kind = kind;
  w.throw_rate = sim::choose(3) == 1 ? 150 : 0;
  w.nested_rate = sim::choose(2) ? 350 : 0;
  w.budget = 1 + sim::choose(6);
  bool calm = sim::choose(4) == 3;
  if (calm) { auto &cfg = sim::config(); cfg.p_stall = cfg.p_leap = cfg.p_late = 0; }
  int nprod = 1 + sim::choose(3);
  int nops = 1 + sim::choose(4);
  int mode = sim::choose(3);  // 0: quiesce then shutdown; 1: shutdown races producers; 2: race then more posts
  std::shared_ptr<executor::Basic> ex;
  std::vector<std::string> cb;
  executor::Manual *man = nullptr;
  int pool_size = 1;
  switch (kind) {
    case INLINE: ex = std::make_shared<executor::Inline>(); break;
    case MANUAL: { auto m = std::make_shared<executor::Manual>(); man = m.get(); ex = m; break; }
    case THREAD: ex = std::make_shared<executor::Thread>(); break;
    case WORKER: ex = std::make_shared<executor::WorkerThread>(); w.limit = 1; break;
    case POOL: {
      pool_size = 1 + sim::choose(4);
      static const int idle[] = {10000, 1, 3, 20};
      ex = std::make_shared<executor::ThreadPool>("p", pool_size, ms(idle[sim::choose(4)]));
      w.limit = pool_size;
      break;
    }
  }
  w.ex = ex.get();
  w.reenter = sim::choose(2);
  sim::event("executor %s producers %d ops %d mode %d size %d", kKind[kind], nprod, nops, mode, pool_size);
  // Manual executors need someone to run the loop.
  std::vector<Thr> loopers;
  int nloop = kind == MANUAL ? 1 + sim::choose(2) : 0;
  if (nloop == 1) w.limit = 1;
  bool stop_loop = false;
  for (int i = 0; i < nloop; ++i)
    loopers.emplace_back([&, man] {
      try {
        for (;;) {
          { sim::NoPreempt g; if (stop_loop) return; }
          switch (sim::choose(6)) {
            case 0: man->loop_once_for(ms(5)); break;
            case 1: man->loop_once(); sim::sleep_ns(200000); break;
            case 2: man->loop(3); sim::sleep_ns(200000); break;
            case 3: man->loop_for(2, ms(4)); break;
            case 4: {
              size_t n = man->wait_for_tasks_for(2, ms(3));
              (void)n; man->loop(1); break;
            }
            default: man->wait_for_task_for(ms(2)); man->loop(4); break;
          }
        }
      } catch (const std::runtime_error &) {
        sim::NoPreempt g;
        SIM_CHECK(w.shutdown_begun, "loop-threw", "a loop call threw although shutdown was not requested");
      }
    });
  {
    std::vector<Thr> prod;
    for (int p = 0; p < nprod; ++p)
      prod.emplace_back([&] {
        for (int i = 0; i < nops; ++i) {
          maybe_pause(kind == POOL || kind == WORKER ? 8000 : 2000);
          issue(*ex, false);
        }
      });
    if (mode == 0) {
      prod.clear();
      // Liveness: nothing is lost while the executor is open.
      eventually(all_accepted_ran, "task-lost", "every accepted task has run");
      for (auto &r : w.recs)
        SIM_CHECK(r->st == Rec::ACCEPTED, "refused-while-open", "task %d refused", r->id);
      sim::probe("quiesced");
    } else {
      maybe_pause(6000);
      sim::count_fault(sim::F_SHUTDOWN_RACE);
    }
    { sim::NoPreempt g; w.shutdown_begun = true; w.begin_seq = sim::seqno(); sim::event("shutdown"); }
    uint64_t t0 = sim::now();
    ex->shutdown();
    if (calm)
      SIM_CHECK(sim::now() - t0 < 5 * kSec, "shutdown-late", "shutdown() of the %s executor took %llu ms, no task runs that long", kKind[kind], (unsigned long long)((sim::now() - t0) / kMs));
    { sim::NoPreempt g; w.shutdown_done = kind != MANUAL && kind != INLINE; w.shutdown_seq = sim::seqno(); sim::event("shutdown done"); }
    SIM_CHECK(ex->shutdown_requested(), "shutdown-flag", "shutdown_requested() false after shutdown()");
    if (mode == 2) { issue(*ex, false); ex->shutdown(); }
    prod.clear();
  }
  { sim::NoPreempt g; stop_loop = true; }
  loopers.clear();
  w.shutdown_done = true;
  // After shutdown: refusal, results settled, nothing leaked.
  if (mode == 0) {
    Rec *r = new_rec(false);
    bool threw = false;
    try { ex->post([t = Token(r), &ex] { body(t.r, *ex); }); } catch (const std::runtime_error &) { threw = true; }
    SIM_CHECK(threw, "accepted-after-shutdown", "post accepted after shutdown() returned (%s)", kKind[kind]);
    r->st = Rec::REJECTED;
  }
  settle_results();
  if (kind == THREAD)
    for (auto &r : w.recs)
      if (r->st == Rec::ACCEPTED && !r->broken) SIM_CHECK(r->finished == 1, "task-lost", "thread executor dropped accepted task %d", r->id);
  if (kind == INLINE)
    for (auto &r : w.recs)
      if (r->st == Rec::ACCEPTED && !r->broken) SIM_CHECK(r->finished == 1 && r->thread == r->producer, "inline-affinity", "inline task %d did not run in its caller", r->id);
  if (kind == WORKER || kind == POOL || kind == THREAD)
    for (auto &r : w.recs)
      if (r->started && !r->nested) SIM_CHECK(r->thread != r->producer, "affinity", "task %d ran on its caller's thread (%s)", r->id, kKind[kind]);
  if (kind == WORKER) {
    SIM_CHECK(w.worker_ids.size() <= 1, "affinity", "worker-thread executor used %zu threads", w.worker_ids.size());
    check_fifo();
    check_nested_fifo();
  }
  if (kind == MANUAL && nloop == 1) { check_fifo(); check_nested_fifo(); }
  if (kind == THREAD) {
    std::set<int> seen;
    for (auto &r : w.recs) if (r->started)
      SIM_CHECK(seen.insert(r->thread).second, "affinity", "thread executor ran two tasks on one thread");
  }
  w.ex = nullptr;
  ex.reset();
  for (auto &r : w.recs) {
    SIM_CHECK(r->live == 0, "callable-leaked", "task %d: %d copies of its callable still alive after the executor is gone (%s)", r->id, r->live, kKind[kind]);
    SIM_CHECK(r->started == r->finished, "half-run", "task %d started but never finished (%s)", r->id, kKind[kind]);
  }
  if (w.max_running > 1) sim::probe("parallel_tasks");
}
}  // namespace

SCENARIO(exec_pool) { run_executor(POOL); }
SCENARIO(exec_worker) { run_executor(WORKER); }
SCENARIO(exec_thread) { run_executor(THREAD); }
SCENARIO(exec_manual) { run_executor(MANUAL); }
SCENARIO(exec_inline) { run_executor(INLINE); }
