// Generators: drawn from step by step, by several threads in turn, given up at any point.
#include "common.h"
#include <stdexcept>
#include "plain/concurrency/result/generator.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"

using namespace scen;

namespace {
struct G { int live = 0, resumed = 0; };
struct Obs { G *g; explicit Obs(G *p) : g(p) { sim::NoPreempt n; ++g->live; } ~Obs() { sim::NoPreempt n; --g->live; } };
struct Val { uint64_t a; std::string s; };
bool good(const Val &v, uint64_t i) { return v.a == i * 7 && v.s == std::string(10 + i % 30, (char)('a' + i % 26)); }

plain::concurrency::result::Generator<Val> make(G *g, int n, int thr, bool byref) {
  Obs o(g);
  for (int i = 0; i < n; ++i) {
    Obs in(g);
    { sim::NoPreempt q; ++g->resumed; }
    if (i == thr) throw std::runtime_error("gen" + std::to_string(i));
    Val v{(uint64_t)i * 7, std::string(10 + i % 30, (char)('a' + i % 26))};
    if (byref) co_yield v;
    else co_yield std::move(v);
    maybe_pause(20);
  }
}
plain::concurrency::result::Generator<Val> outer(G *g, int n, int thr, bool byref) {
  Obs o(g);
  for (auto &v : make(g, n, thr, byref)) co_yield v;
}
}  // namespace

SCENARIO(res_gen) {
  auto gp = std::make_unique<G>();
  G *g = gp.get();
  int n = sim::choose(12);
  int thr = sim::choose(3) == 2 ? (int)sim::choose(12) : -1;
  bool byref = sim::choose(2), nest = sim::choose(2);
  int stop = sim::choose(3) == 2 ? (int)sim::choose(12) : 1000;      // given up after so many values
  int move_at = sim::choose(2) ? (int)sim::choose(12) : -1;
  bool threw = false;
  int got = 0;
  {
    auto gen = std::make_unique<plain::concurrency::result::Generator<Val>>(nest ? outer(g, n, thr, byref) : make(g, n, thr, byref));
    SIM_CHECK((bool)*gen, "generator-empty", "a new generator is empty");
    maybe_pause(50);
    SIM_CHECK(g->resumed == 0 && g->live == 0, "generator-eager", "a generator runs before it is asked");
    if (sim::choose(4) == 3) {         // moved before use
      auto other = std::make_unique<plain::concurrency::result::Generator<Val>>(std::move(*gen));
      SIM_CHECK(!*gen && (bool)*other, "generator-empty", "moving a generator did not move it");
      bool refused = false;
      try { (void)gen->begin(); } catch (const std::runtime_error &) { refused = true; }
      SIM_CHECK(refused, "generator-empty", "an empty generator can be started");
      gen = std::move(other);
    }
    if (stop > 0) {
      using It = decltype(gen->begin());
      std::unique_ptr<It> it;
      // Several threads take turns.
      bool over = false;
      auto step = [&](int upto) {
        try {
          while (!over && got < upto) {
            if (!it) it = std::make_unique<It>(gen->begin());
            else if (sim::choose(2)) ++*it; else (*it)++;
            if (*it == gen->end()) { over = true; break; }
            SIM_CHECK(got < n && (thr < 0 || got < thr), "generator-count", "a generator of %d values gives more", n);
            SIM_CHECK(g->resumed == got + 1, "generator-eager", "a generator ran %d times for %d values", g->resumed, got + 1);
            SIM_CHECK(good(**it, got) && (*it)->a == (uint64_t)got * 7, "generator-value", "value %d of a generator is wrong", got);
            maybe_pause(30);
            SIM_CHECK(good(**it, got), "generator-value", "value %d of a generator changes", got);
            ++got;
          }
        } catch (const std::runtime_error &e) {
          SIM_CHECK(thr >= 0 && thr < n && got == thr && e.what() == "gen" + std::to_string(thr), "generator-exception", "after %d values a generator throws %s", got, e.what());
          threw = over = true;
        }
      };
      while (!over && got < stop) {
        int upto = std::min(stop, got + 1 + (int)sim::choose(4));
        if (sim::choose(2)) { Thr t([&] { step(upto); }); t.join(); }
        else step(upto);
      }
      if (over && !threw) SIM_CHECK(got == n && (thr < 0 || thr >= n), "generator-count", "a generator of %d values ends after %d", n, got);
    }
    (void)move_at;
    sim::probe(threw ? "threw" : got < n ? "given_up" : "all");
  }
  SIM_CHECK(g->live == 0, "generator-leak", "%d objects of a generator that is gone are left", g->live);
}
