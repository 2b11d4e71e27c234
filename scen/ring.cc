// The lock-free ring between one producer and one consumer, and rings against a reference queue.
#include "common.h"
#include "plain/basic/ring.h"
#include <deque>

using namespace scen;

namespace {
template <typename R>
void spsc(R &r, size_t cap, bool grows) {
  const uint64_t total = 1 + sim::choose(sim::choose(4) == 3 ? 200 : 40);
  struct S { uint64_t pushed = 0, popped = 0; } s;
  Thr prod([&] {
    uint64_t next = 0;
    while (next < total) {
      uint64_t had, n = 1;
      { sim::NoPreempt g; had = s.pushed - s.popped; }
      bool ok;
      if (grows) {
        // A ring that grows while it is read needs a lock: stay within its size.
        size_t room = r.write_avail();
        SIM_CHECK(room <= cap, "ring-count", "a ring of %zu has room for %zu", cap, room);
        if (room == 0) { maybe_pause(50); continue; }
      }
      switch (sim::choose(3)) {
        case 0: ok = r.insert(next); break;
        case 1: ok = r.insert(&next); break;
        default: {
          uint64_t buf[12];
          uint64_t want = 1 + sim::choose(12);
          if (want > total - next) want = total - next;
          if (grows) want = std::min<uint64_t>(want, r.write_avail());
          for (uint64_t i = 0; i < want; ++i) buf[i] = next + i;
          bool full = sim::choose(2);
          n = r.write(buf, want, full);
          SIM_CHECK(n <= want && (!full || n == 0 || n == want), "ring-count", "%llu of %llu elements are accepted", (unsigned long long)n, (unsigned long long)want);
          ok = n > 0;
          if (n < want) SIM_CHECK(had + want > cap, "ring-full", "only %llu of %llu elements are accepted by a ring of %zu that holds %llu at most", (unsigned long long)n, (unsigned long long)want, cap, (unsigned long long)had);
          break;
        }
      }
      if (!ok) {
        if (n == 1) SIM_CHECK(had >= cap, "ring-full", "an element is refused by a ring of %zu that holds %llu at most", cap, (unsigned long long)had);
        maybe_pause(50);
        continue;
      }
      next += n;
      sim::NoPreempt g;
      s.pushed = next;
    }
  });
  Thr cons([&] {
    uint64_t next = 0;
    auto is = [&](uint64_t v, uint64_t want) { if (v != want) sim::fail("ring-order", "element %llu is read instead of %llu", (unsigned long long)v, (unsigned long long)want); };
    while (next < total) {
      uint64_t in, n = 0;
      { sim::NoPreempt g; in = s.pushed > next ? s.pushed - next : 0; }
      switch (sim::choose(5)) {
        case 0: { uint64_t v; if (r.remove(&v)) { is(v, next); n = 1; } break; }
        case 1: {
          uint64_t buf[12];
          n = r.read(buf, 1 + sim::choose(12));
          for (uint64_t i = 0; i < n; ++i) is(buf[i], next + i);
          break;
        }
        case 2: {
          uint64_t buf[12];
          uint64_t m = r.read(buf, 1 + sim::choose(12), true);
          for (uint64_t i = 0; i < m; ++i) is(buf[i], next + i);
          n = r.remove((size_t)m);
          SIM_CHECK(n == m, "ring-count", "%llu of %llu read elements are removed", (unsigned long long)n, (unsigned long long)m);
          break;
        }
        case 3: {
          auto *p = r.at(0);
          if (p) { is(*p, next); n = r.remove((size_t)1); SIM_CHECK(n == 1, "ring-count", "an element that was read is not removed"); }
          break;
        }
        default: {
          size_t a = r.read_avail();
          SIM_CHECK(a <= cap && a <= total - next, "ring-count", "%zu elements are in a ring of %zu", a, cap);
          SIM_CHECK(a >= in, "ring-count", "%zu elements are in a ring that got %llu", a, (unsigned long long)in);
          if (a) { is(*r.peek(1), next); is(r[a - 1], next + a - 1); }
          continue;
        }
      }
      if (n == 0) {
        SIM_CHECK(in == 0, "ring-lost", "nothing is read from a ring that holds %llu at least", (unsigned long long)in);
        maybe_pause(50);
      }
      next += n;
      sim::NoPreempt g;
      SIM_CHECK(next <= total, "ring-count", "more elements are read than were written");
      s.popped = next;
    }
  });
  prod.join();
  cons.join();
  SIM_CHECK(r.empty() && !r.full() && r.read_avail() == 0 && r.write_avail() == r.size(), "ring-count", "a drained ring is not empty");
  sim::probe(grows ? "dynamic" : "fixed");
}
template <typename R>
void model(R &r, bool grows) {
  std::deque<uint64_t> m;
  uint64_t next = 1;
  int ops = 20 + sim::choose(150);
  uint64_t buf[300], out[300];
  for (int i = 0; i < ops; ++i) {
    size_t cap = r.size(), room = cap - m.size();
    SIM_CHECK(r.read_avail() == m.size() && r.write_avail() == room && r.empty() == m.empty() && r.full() == (room == 0),
              "ring-count", "a ring of %zu with %zu elements says %zu to read and %zu to write", cap, m.size(), r.read_avail(), r.write_avail());
    switch (sim::choose(9)) {
      case 0: case 1: {
        bool ok = sim::choose(2) ? r.insert(next) : r.insert(&next);
        SIM_CHECK(ok == (grows || room > 0), "ring-full", "an element is %s by a ring of %zu with %zu elements", ok ? "accepted" : "refused", cap, m.size());
        if (ok) m.push_back(next++);
        break;
      }
      case 2: case 3: {
        size_t n = sim::choose(sim::choose(4) == 3 ? 300 : 12);
        bool full = sim::choose(2);
        for (size_t k = 0; k < n; ++k) buf[k] = next + k;
        size_t w = r.write(buf, n, full), want = grows || room >= n ? n : full ? 0 : room;
        SIM_CHECK(w == want, "ring-count", "%zu of %zu elements are written to a ring of %zu with room for %zu", w, n, cap, room);
        for (size_t k = 0; k < w; ++k) m.push_back(next + k);
        next += n;
        break;
      }
      case 4: {
        uint64_t v = 0;
        bool ok = r.remove(&v);
        SIM_CHECK(ok == !m.empty() && (!ok || v == m.front()), "ring-order", "element %llu is read", (unsigned long long)v);
        if (ok) m.pop_front();
        break;
      }
      case 5: case 6: {
        size_t n = sim::choose(sim::choose(3) == 2 ? 300 : 8), want = std::min(n, m.size());
        bool keep = sim::choose(3) == 2;
        size_t g = r.read(out, n, keep);
        SIM_CHECK(g == want, "ring-count", "%zu elements are read of %zu", g, m.size());
        for (size_t k = 0; k < g; ++k) SIM_CHECK(out[k] == m[k], "ring-order", "element %llu is read instead of %llu", (unsigned long long)out[k], (unsigned long long)m[k]);
        if (!keep) m.erase(m.begin(), m.begin() + (long)g);
        break;
      }
      case 7: {
        size_t n = sim::choose(20), g = r.remove(size_t(n));
        SIM_CHECK(g == std::min(n, m.size()), "ring-count", "%zu elements are removed of %zu", g, m.size());
        m.erase(m.begin(), m.begin() + (long)g);
        break;
      }
      default:
        if (sim::choose(8) == 7) {
          switch (sim::choose(3)) { case 0: r.clear(); break; case 1: r.producer_clear(); break; default: r.consumer_clear(); }
          m.clear();
        }
        for (size_t k = 0; k < m.size(); ++k) { auto *p = r.at(k); SIM_CHECK(p && *p == m[k] && r[k] == m[k], "ring-order", "element %zu of a ring is not what was written", k); }
        SIM_CHECK(r.at(m.size()) == nullptr, "ring-order", "a ring of %zu elements has one more", m.size());
        if (!m.empty()) SIM_CHECK(*r.peek() == m.front(), "ring-order", "the first element is not what was written");
    }
  }
  sim::probe("model");
}
}  // namespace

SCENARIO(ring_spsc) {
  sim::config().p_stall /= 4;
  switch (sim::choose(8)) {
    case 0: case 1: { auto r = std::make_unique<plain::FixedRing<uint64_t, 4>>(); spsc(*r, 4, false); break; }
    case 2: case 3: { auto r = std::make_unique<plain::FixedRing<uint64_t, 16>>(); spsc(*r, 16, false); break; }
    case 4: { auto r = std::make_unique<plain::FixedRing<uint64_t, 2>>(); spsc(*r, 2, false); break; }
    case 5: { auto r = std::make_unique<plain::DynamicRing<uint64_t, 8>>(); spsc(*r, 8, true); break; }
    case 6: { auto r = std::make_unique<plain::FixedRing<uint64_t, 8>>(); model(*r, false); break; }
    default: { auto r = std::make_unique<plain::DynamicRing<uint64_t, 4>>(); model(*r, true); break; }
  }
}
