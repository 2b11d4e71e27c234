// The memory pool, used by any number of threads at once.
#include "common.h"
#include <algorithm>
#include <stdexcept>
#include "plain/sys/memory/pool.h"

using namespace scen;

namespace {
struct Blk { char *p; size_t n; uint8_t pat; };
template <typename P, int LEAF, int COUNT, bool OS>
void pool_run() {
  // The system may have no memory, for parts of the pool or for what goes past it.
  const uint32_t poor = sim::choose(3) == 2 ? 100 + sim::choose(400) : 0;
  auto mem = std::make_unique<std::aligned_storage_t<sizeof(P), alignof(P)>>();
  struct Gone { void operator()(P *p) { p->~P(); } };
  std::unique_ptr<P, Gone> up;
  const uint64_t had = sim::fault_count(sim::F_ALLOC_FAIL);
  { sim::AllocFaults f(poor); up.reset(new (mem.get()) P); }
  P &pool = *up;
  const int leaves = COUNT - (int)(sim::fault_count(sim::F_ALLOC_FAIL) - had);
  if (leaves < COUNT) sim::probe("leaf_missing");
  auto live = std::make_unique<std::map<char *, Blk>>();
  auto bag = std::make_unique<std::vector<Blk>>();   // blocks that any thread may free
  constexpr size_t kHead = 16;
  auto get = [&](size_t n) -> bool {
    char *p = nullptr;
    try { sim::AllocFaults f(OS ? poor : 0); p = static_cast<char *>(pool.malloc(n)); } catch (const std::range_error &) {
      SIM_CHECK(!OS, "alloc-failed", "%zu bytes are refused by a pool that may ask the system", n);
      sim::probe("exhausted");
      return false;
    }
    if (!p && OS && poor) { sim::probe("system_out_of_memory"); return false; }
    SIM_CHECK(p, "alloc-failed", "no memory for %zu bytes", n);
    Blk b{p, n, (uint8_t)(1 + sim::choose(255))};
    {
      sim::NoPreempt g;
      auto it = live->upper_bound(p + n);
      if (it != live->begin()) {
        --it;
        // headers lie before blocks, so distinct blocks never touch
        SIM_CHECK(it->first + it->second.n <= p - kHead || it->first - kHead >= p + n, "blocks-overlap",
                  "a block of %zu bytes overlaps a live one of %zu", n, it->second.n);
      }
      (*live)[p] = b;
    }
    memset(p, b.pat, n);
    { sim::NoPreempt g; bag->push_back(b); }
    return true;
  };
  auto put = [&]() -> bool {
    Blk b;
    {
      sim::NoPreempt g;
      if (bag->empty()) return false;
      size_t i = sim::choose((uint32_t)bag->size());
      b = (*bag)[i];
      (*bag)[i] = bag->back();
      bag->pop_back();
    }
    for (size_t i = 0; i < b.n; ++i)
      if ((uint8_t)b.p[i] != b.pat) sim::fail("block-altered", "byte %zu of a block of %zu was changed by somebody else", i, b.n);
    if (b.n && sim::choose(4) == 3) {
      size_t from = sim::choose((uint32_t)b.n), len = sim::choose((uint32_t)(b.n - from) + 1);
      bool ok = false;
      try { ok = pool.check_access(b.p, b.p + from, len); } catch (const std::range_error &) {}
      SIM_CHECK(ok, "access-refused", "%zu bytes at %zu of a live block of %zu are said not to belong to it", len, from, b.n);
      ok = false;
      try { ok = pool.check_access(b.p, b.p + from, b.n - from + 1 + sim::choose(9)); } catch (const std::range_error &) {}
      SIM_CHECK(!ok, "access-allowed", "memory behind a block of %zu is said to belong to it", b.n);
    }
    { sim::NoPreempt g; live->erase(b.p); }
    try { pool.free(b.p); } catch (const std::range_error &) { sim::fail("free-refused", "a block of %zu bytes that the pool gave can not be freed", b.n); }
    return true;
  };
  {
    std::vector<std::unique_ptr<Thr>> ts;
    int n = 1 + sim::choose(4);
    bool tidy = sim::choose(2);
    for (int i = 0; i < n; ++i)
      ts.push_back(std::make_unique<Thr>([&] {
        int ops = 2 + sim::choose(sim::choose(4) == 3 ? 60 : 14);
        for (int k = 0; k < ops; ++k) {
          bool give;
          { sim::NoPreempt g; give = sim::choose(tidy ? 2 + (uint32_t)bag->size() : 3) < 2; }
          if (give) {
            static const uint32_t caps[] = {24, LEAF / 3, LEAF - 8, LEAF * 2};
            get(sim::choose(1 + caps[sim::choose(12) % 4 ? sim::choose(2) : 2 + sim::choose(2)]));
          } else if (put() && sim::choose(3) == 2) put();
          if (sim::choose(4) == 3) maybe_pause(20);
        }
      }));
  }
  while (put()) {}
  SIM_CHECK(live->empty(), "blocks-lost", "%zu blocks are live", live->size());
  // Everything came back: the pool has its whole memory again.
  if (!OS) {
    for (int i = 0; i < leaves; ++i)
      if (!get(LEAF - kHead)) sim::fail("memory-leaked", "everything was freed, but only %d of %d leaves can be used again", i, leaves);
    SIM_CHECK(!get(1), "alloc-beyond", "a pool gives more than it has");
    while (put()) {}
  }
  // What the pool did not give it does not take.
  alignas(16) char own[64];
  memset(own, sim::choose(256), sizeof(own));
  bool threw = false;
  try { pool.free(own + 32); } catch (const std::range_error &) { threw = true; }
  SIM_CHECK(threw, "foreign-freed", "memory that is not the pool's is freed");
}
}  // namespace

SCENARIO(mem_pool) {
  using namespace plain::memory;
  sim::config().p_stall /= 4;
  switch (sim::choose(4)) {
    case 0: pool_run<Pool<256, 2, 64, false, true>, 256, 2, false>(); break;
    case 1: pool_run<Pool<200, 1, 40, false, true>, 200, 1, false>(); break;
    case 2: pool_run<Pool<512, 4, 100, true, true>, 512, 4, true>(); break;
    default: pool_run<Pool<160, 3, 10, true, true>, 160, 3, true>(); break;
  }
}
