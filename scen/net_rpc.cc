// Remote calls over connections that may break.
#include "netc.h"
#include <array>
#include <cmath>
#include <future>

using namespace netc;

namespace {
struct Call { int runs = 0; };
struct RW {
  std::map<int32_t, Call> calls;     // unique number of a call -> server side
  int32_t next = 1, base = 0;
  uint32_t slow_us = 0;
};
RW *R;

int32_t mark(int32_t n) {
  if (R->slow_us && sim::choose(3) == 2) sim::sleep_ns(1000ull * sim::choose(R->slow_us));
  sim::NoPreempt g;
  ++R->calls[n].runs;
  sim::event("served %d", n);
  SIM_CHECK(n > 0 && n < R->next, "call-from-nowhere", "the server runs a call with argument %d that was never made", n);
  SIM_CHECK(R->calls[n].runs == 1, "call-ran-twice", "call %d ran %d times", n, R->calls[n].runs);
  return n;
}
std::string blob(int32_t n, int len) {
  std::string s;
  for (int i = 0; i < len; ++i) s += (char)(n * 7 + i);
  return s;
}
// Arguments of many types, a function of the call's number.
struct Pair {
  int16_t a = 0;
  std::string b;
  template <class T> void pack(T &p) { p(a, b); }
};
struct Wide {
  int8_t i8; int16_t i16; int64_t i64; uint8_t u8; uint16_t u16; uint32_t u32; uint64_t u64; double d; float f; bool t;
  std::vector<int32_t> v; std::map<std::string, int64_t> m; std::array<uint16_t, 3> a; std::string s; std::vector<uint8_t> bin; Pair pr;
};
template <class T> T edge(uint64_t &x) {
  x = x * 6364136223846793005ull + 1442695040888963407ull;
  uint64_t r = x >> 20, k = (x >> 12) & 7;
  switch (k) {
    case 0: return (T)(r & 0x1f);
    case 1: return (T)(0 - (r & 0x3f));
    case 2: return std::numeric_limits<T>::max();
    case 3: return std::numeric_limits<T>::min();
    case 4: return (T)(((uint64_t)1 << (r % 64)) - (r >> 8 & 1));
    case 5: return (T)(0 - ((uint64_t)1 << (r % 64)));
    default: return (T)(r ^ x << 24);
  }
}
double edge_d(uint64_t &x) {
  int64_t a = edge<int32_t>(x), b = edge<int8_t>(x);
  switch (x >> 40 & 7) {
    case 0: return (double)a;
    case 1: return (double)edge<int64_t>(x);
    case 2: return std::ldexp(1.0 + std::abs((double)a) / 4294967296.0, (int)b * 7);
    case 3: return -std::ldexp(1.0, (int)b);
    default: return (double)a / (b ? b : 3);
  }
}
Wide wide(int32_t n) {
  uint64_t x = (uint64_t)n * 0x9e3779b97f4a7c15ull + 1;
  Wide w{edge<int8_t>(x), edge<int16_t>(x), edge<int64_t>(x), edge<uint8_t>(x), edge<uint16_t>(x), edge<uint32_t>(x), edge<uint64_t>(x),
         edge_d(x), 0, (x >> 33 & 1) != 0, {}, {}, {}, {}, {}, {}};
  w.f = (float)edge_d(x);
  static const int sizes[] = {0, 1, 3, 15, 16, 20, 2, 33};
  int k = sizes[x >> 50 & 7];
  for (int i = 0; i < k; ++i) w.v.push_back(edge<int32_t>(x));
  k = sizes[x >> 47 & 7];
  for (int i = 0; i < k; ++i) w.m["k" + std::to_string(i)] = edge<int64_t>(x);
  for (auto &e : w.a) e = edge<uint16_t>(x);
  w.s = blob(n, sizes[x >> 44 & 7] * 2);
  for (int i = 0; i < sizes[x >> 41 & 7] * 12; ++i) w.bin.push_back(edge<uint8_t>(x));
  w.pr.a = edge<int16_t>(x);
  w.pr.b = blob(n + 1, (int)(x >> 60));
  return w;
}
#define ARG(cond, what) SIM_CHECK(cond, "argument-altered", "call %d: the argument of type %s is not what the caller gave", n, what)

struct Pending { int32_t n; int kind; int len; std::future<net::rpc::Unpacker> f; };

void client(ConnPtr c, bool *broken, int count) {
  std::vector<Pending> open;
  auto settle = [&](Pending &p) {
    bool ok = patient([&] { return p.f.wait_for(ms(0)) == std::future_status::ready; });
    SIM_CHECK(ok, "call-never-settles", "call %d (kind %d) is neither answered nor failed (connection %s)", p.n, p.kind, *broken ? "ended" : "healthy");
    try {
      auto u = p.f.get();
      SIM_CHECK(p.kind != 4, "unknown-function-answered", "a call of an unknown function was answered");
      if (p.kind == 0) { auto r = u.as<int32_t>(); SIM_CHECK(r == p.n + 1000, "wrong-answer", "call %d got the answer %d instead of %d", p.n, r, p.n + 1000); }
      if (p.kind == 1) { auto r = u.as<std::string>(); SIM_CHECK(r == blob(p.n, p.len), "wrong-answer", "call %d got another text back (%zu bytes of %d)", p.n, r.size(), p.len); }
      if (p.kind == 7) {
        auto r = u.as<std::map<std::string, int64_t>>();
        SIM_CHECK(r == wide(p.n).m, "wrong-answer", "call %d got another map back (%zu entries)", p.n, r.size());
      }
      if (p.kind == 8) { auto r = u.as<uint64_t>(); SIM_CHECK(r == wide(p.n).u64, "wrong-answer", "call %d got the answer %llu", p.n, (unsigned long long)r); }
      if (p.kind == 9) { auto r = u.as<double>(); SIM_CHECK(r == wide(p.n).d, "wrong-answer", "call %d got the answer %.17g instead of %.17g", p.n, r, wide(p.n).d); }
      if (p.kind == 10) { auto r = u.as<int64_t>(); SIM_CHECK(r == wide(p.n).i64, "wrong-answer", "call %d got the answer %lld instead of %lld", p.n, (long long)r, (long long)wide(p.n).i64); }
      if (p.kind == 5) { auto r = u.as<std::string>(); SIM_CHECK(r == "hello", "wrong-answer", "the call without arguments got another text"); }
      sim::NoPreempt g;
      if (p.kind < 3 || p.kind > 6) SIM_CHECK(R->calls[p.n].runs == 1, "answer-without-run", "call %d was answered but ran %d times", p.n, R->calls[p.n].runs);
    } catch (const std::exception &e) {
      if (p.kind != 4) SIM_CHECK(*broken, "call-failed", "call %d (kind %d) failed on a healthy connection: %s", p.n, p.kind, e.what());
    }
  };
  for (int i = 0; i < count; ++i) {
    Pending p;
    { sim::NoPreempt g; p.n = R->next++; }
    p.kind = sim::choose(11);
    p.len = 1 + sim::choose(sim::choose(4) == 3 ? 400 : 12);
    switch (p.kind) {
      case 0: p.f = c->async_call("add", p.n, (int32_t)1000); break;
      case 1: p.f = c->async_call("echo", p.n, blob(p.n, p.len)); break;
      case 2: p.f = c->async_call("note", p.n); break;
      case 3: p.f = c->async_call("ping"); break;
      case 4: p.f = c->async_call("nobody", p.n); break;
      case 5: p.f = c->async_call("hello"); break;
      case 7: {
        Wide w = wide(p.n);
        p.f = c->async_call("wide", p.n, w.i8, w.i16, w.i64, w.u8, w.u16, w.u32, w.u64, w.d, w.f, w.t, w.v, w.m, w.a, w.s, w.bin, w.pr);
        break;
      }
      case 8: p.f = c->async_call("u64", p.n); break;
      case 9: p.f = c->async_call("dbl", p.n); break;
      case 10: p.f = c->async_call("i64", p.n); break;
      default: p.kind = 6; c->send("note", p.n); break;
    }
    if (p.kind != 6) open.push_back(std::move(p));
    else if (sim::choose(2)) {
      int32_t n = p.n;
      bool ok = *broken || patient([&] { return *broken || R->calls[n].runs == 1; });
      SIM_CHECK(ok, "notify-lost", "notification %d did not run", n);
    }
    if (!open.empty() && sim::choose(3)) {
      size_t k = sim::choose((uint32_t)open.size());
      settle(open[k]);
      open.erase(open.begin() + k);
    }
    maybe_pause(300);
  }
  for (auto &p : open) settle(p);
}
// A caller with a time-out.
void timed(ConnPtr c, bool *broken, int count) {
  int t = 1 + sim::choose(40);
  c->set_call_timeout(ms(t));
  for (int i = 0; i < count; ++i) {
    int32_t n;
    { sim::NoPreempt g; n = R->next++; }
    uint64_t t0 = sim::now();
    try {
      auto r = c->call("add", n, (int32_t)5).as<int32_t>();
      SIM_CHECK(r == n + 5, "wrong-answer", "call %d got the answer %d instead of %d", n, r, n + 5);
    } catch (const std::exception &e) {
      if (strstr(e.what(), "timeout")) {
        sim::probe("call_timed_out");
        SIM_CHECK(sim::now() - t0 >= (uint64_t)t * kMs, "timeout-early", "a call timed out after %llu us of %d ms", (unsigned long long)((sim::now() - t0) / 1000), t);
      } else SIM_CHECK(*broken, "call-failed", "call %d failed on a healthy connection: %s", n, e.what());
    }
    maybe_pause(300);
  }
}
}  // namespace

SCENARIO_STEPS(net_rpc, 40000000) {
  auto wp = std::make_unique<RW>();
  RW &w = *wp;
  R = &w;
  auto &cfg = sim::config();
  cfg.p_stall /= 4;
  quiet_logs();
  net_weather(true);
  if (simnet::cfg().cap < 300) simnet::cfg().cap = 300;
  if (sim::choose(2)) w.slow_us = 30000;
  net::setting_t st;
  st.address = "127.0.0.1:7000";
  st.name = "srv";
  st.mode = sim::choose(3) == 2 ? net::Mode::Select : net::Mode::Epoll;
  st.max_count = 8;
  st.default_count = 1 + sim::choose(3);
  auto lst = std::make_unique<net::Listener>(st, make_exec(sim::choose(4)));
  lst->bind("add", [](int32_t n, int32_t m) { return mark(n) + m; });
  lst->bind("echo", [](int32_t n, std::string s) { mark(n); return s; });
  lst->bind("note", [](int32_t n) { mark(n); });
  lst->bind("ping", []() {});
  lst->bind("hello", []() { return std::string("hello"); });
  lst->bind("wide", [](int32_t n, int8_t i8, int16_t i16, int64_t i64, uint8_t u8, uint16_t u16, uint32_t u32, uint64_t u64, double d, float f, bool t,
                       std::vector<int32_t> v, std::map<std::string, int64_t> m, std::array<uint16_t, 3> a, std::string s, std::vector<uint8_t> bin, Pair pr) {
    mark(n);
    sim::NoPreempt g;
    Wide w = wide(n);
    ARG(i8 == w.i8, "int8"); ARG(i16 == w.i16, "int16"); ARG(i64 == w.i64, "int64"); ARG(u8 == w.u8, "uint8"); ARG(u16 == w.u16, "uint16");
    ARG(u32 == w.u32, "uint32"); ARG(u64 == w.u64, "uint64"); ARG(d == w.d, "double"); ARG(f == w.f, "float"); ARG(t == w.t, "bool");
    ARG(v == w.v, "vector"); ARG(m == w.m, "map"); ARG(a == w.a, "array"); ARG(s == w.s, "string"); ARG(bin == w.bin, "binary");
    ARG(pr.a == w.pr.a && pr.b == w.pr.b, "struct");
    return m;
  });
  lst->bind("u64", [](int32_t n) { mark(n); return wide(n).u64; });
  lst->bind("i64", [](int32_t n) { mark(n); return wide(n).i64; });
  lst->bind("dbl", [](int32_t n) { mark(n); return wide(n).d; });
  SIM_CHECK(lst->start(), "start-failed", "listener did not start");
  net::setting_t ct;
  ct.name = "cli";
  ct.mode = sim::choose(3) == 2 ? net::Mode::Select : net::Mode::Epoll;
  ct.max_count = 8;
  ct.default_count = 1;
  auto con = std::make_unique<net::Connector>(ct, make_exec(sim::choose(4)));
  SIM_CHECK(con->start(), "start-failed", "connector did not start");
  int nconn = 1 + sim::choose(2);
  bool breaks = sim::choose(3) == 2;
  bool broken[3] = {};
  std::vector<ConnPtr> keep(nconn);
  {
    std::vector<std::unique_ptr<Thr>> ts;
    for (int i = 0; i < nconn; ++i) {
      keep[i] = con->connect("127.0.0.1:7000", {}, ms(60000));
      SIM_CHECK(keep[i] != nullptr, "connect-failed", "client %d could not connect to a healthy server", i);
      if (sim::choose(3) == 2) {
        ts.push_back(std::make_unique<Thr>([&, i] { timed(keep[i], &broken[i], 1 + sim::choose(5)); }));
      } else {
        int callers = 1 + sim::choose(3);
        for (int k = 0; k < callers; ++k)
          ts.push_back(std::make_unique<Thr>([&, i] { client(keep[i], &broken[i], 1 + sim::choose(6)); }));
      }
    }
    if (breaks) {
      int i = sim::choose(nconn);
      maybe_pause(5000);
      { sim::NoPreempt g; broken[i] = true; }
      if (sim::choose(2)) keep[i]->shutdown();
      else { int fd = keep[i]->socket()->id(); if (fd != -1) simnet::reset_fd(fd); }
      sim::probe("broken_connection");
    }
  }
  // Calls that are open when a side stops, and calls after that.
  std::vector<std::future<net::rpc::Unpacker>> last;
  auto more = [&] { for (auto &c : keep) { int32_t n; { sim::NoPreempt g; n = w.next++; } last.push_back(c->async_call("add", n, (int32_t)1)); } };
  more();
  if (sim::choose(2)) { con->stop(); more(); lst->stop(); } else { lst->stop(); more(); con->stop(); }
  more();
  for (auto &f : last) {
    SIM_CHECK(f.wait_for(ms(0)) == std::future_status::ready, "call-never-settles", "a call open at stop() is neither answered nor failed");
    try { f.get(); } catch (const std::exception &) {}
  }
  keep.clear();
  con.reset();
  lst.reset();
  SIM_CHECK(simnet::open_fds() == 0, "descriptor-leak", "%d descriptors are open after both sides are gone", simnet::open_fds());
}
