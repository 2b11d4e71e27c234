// Making connections to a server that comes and goes, over a network that loses attempts.
#include "netc.h"

using namespace netc;

namespace {
struct Life { int conn_cb = 0, disc_cb = 0, own_conn_cb = 0, own_disc_cb = 0; bool own = false; };
struct NW {
  int epoch = 0;            // odd: the server listens
  bool calm = false, lossy = false, stopping = false;
  int busy = 0, peak = 0;   // slots taken at most
  std::map<Conn *, Life> cur;
  int up = 0, down = 0;
  std::map<uint32_t, uint32_t> echoed, own_echoed;
  std::map<Conn *, uint32_t> tag_of;
};
NW *N;

// A packet that comes back to a client: who may see it?
bool back(Conn *c, const Packet &p, uint32_t own_tag) {
  sim::NoPreempt g;
  Body b;
  SIM_CHECK(parse(p, b) && b.dir == 1, "packet-altered", "an echo is not what was sent");
  SIM_CHECK(N->tag_of[c] == b.tag, "packet-misrouted", "connection of client %u gets an echo of client %u", N->tag_of[c], b.tag);
  if (own_tag) SIM_CHECK(own_tag == b.tag, "wrong-dispatcher", "a packet of client %u goes to the dispatcher that client %u gave its own connection", b.tag, own_tag);
  else SIM_CHECK(!N->own_echoed.count(b.tag), "wrong-dispatcher", "a packet of client %u goes to the common dispatcher though its connection has its own", b.tag);
  ++N->echoed[b.tag];
  return true;
}
// The callbacks of a slot belong to the client that has it now.
void own_cb(Conn *c, uint32_t tag, const char *what) {
  SIM_CHECK(N->tag_of[c] == tag, "wrong-callback", "the %s callback that client %u gave its own connection is called for that of client %u", what, tag, N->tag_of[c]);
}
void check_name(Conn *c, uint32_t tag, bool own) {
  { sim::NoPreempt g; if (N->tag_of[c] != tag || c->socket()->id() == -1) return; }
  auto name = c->name();
  sim::NoPreempt g;
  if (N->tag_of[c] != tag || c->socket()->id() == -1 || name.empty()) return;    // it ended
  auto want = own ? "client" + std::to_string(tag) : "cli." + std::to_string((int)c->id());
  SIM_CHECK(name == want, "wrong-name", "the connection of client %u is called %s instead of %s", tag, name.c_str(), want.c_str());
}
void attempts(net::Connector *con, int who, int n) {
  for (int k = 0; k < n; ++k) {
    static const int tos[] = {2, 20, 100, 1000};
    int t = tos[sim::choose(4)];
    bool own = sim::choose(3) == 2, refuse = sim::choose(8) == 7;
    uint32_t tag = (uint32_t)(1000 * (who + 1) + k);
    int ep, ups;
    { sim::NoPreempt g; ep = N->epoch; ++N->busy; ups = N->up; }
    (void)ups;
    Conn *seen = nullptr;
    // Every attempt marks its slot: another one may have it soon after this one ends.
    std::function<bool(Conn *)> init = [&](Conn *c) {
        seen = c;
        { sim::NoPreempt g; Life &l = N->cur[c]; l = Life(); l.own = own; if (own) N->own_echoed[tag] = 0; N->tag_of[c] = tag; }
        if (own) {
          c->set_dispatcher([tag](Conn *c, Packet p) { return back(c, p, tag); });
          c->set_connect_callback([tag](Conn *c) { sim::NoPreempt g; own_cb(c, tag, "connect"); ++N->cur[c].own_conn_cb; });
          c->set_disconnect_callback([tag](Conn *c) { sim::NoPreempt g; own_cb(c, tag, "disconnect"); ++N->cur[c].own_disc_cb; });
          if (sim::choose(2)) c->set_call_timeout(ms(1 + sim::choose(3)));
          if (sim::choose(2)) c->set_name("early");
          c->set_name("client" + std::to_string(tag));
        }
        return !refuse;
      };
    uint64_t t0 = sim::now();
    ConnPtr c = con->connect("127.0.0.1:7000", init, ms(t));
    uint64_t dt = sim::now() - t0;
    if (!c) {
      sim::probe(refuse ? "refused_by_init" : dt >= (uint64_t)t * kMs ? "timed_out" : "refused");
      sim::NoPreempt g;
      --N->busy;
      if (!refuse && (ep & 1) && ep == N->epoch && N->peak < 16)
        SIM_CHECK(dt >= (uint64_t)t * kMs, "connect-failed", "connecting to a listening server failed after %llu us of %d ms", (unsigned long long)(dt / 1000), t);
      if (N->calm) SIM_CHECK(dt <= (uint64_t)(t + 50) * kMs, "timeout-late", "connecting failed after %llu us, the time-out is %d ms", (unsigned long long)(dt / 1000), t);
      if (seen) {
        Life &l = N->cur[seen];
        // the slot may belong to another client by now
        if (N->tag_of[seen] == tag) SIM_CHECK(l.own_conn_cb == 0 && l.own_disc_cb == 0, "callback-count", "a connection that was not made has callbacks");
      }
      continue;
    }
    SIM_CHECK(!refuse, "init-ignored", "connect() returned a connection that its init function refused");
    {
      sim::NoPreempt g;
      int fd = c->socket()->id();
      if (N->tag_of[c.get()] == tag && fd != -1) SIM_CHECK(simnet::established(fd), "connect-lied", "connect() returned a connection that is not established (fd %d)", fd);
      if (N->tag_of[c.get()] == tag && own) SIM_CHECK(N->cur[c.get()].own_conn_cb == 1, "callback-count", "the connection's own connect callback ran %d times", N->cur[c.get()].own_conn_cb);
    }
    sim::probe("connected");
    if (sim::choose(2)) check_name(c.get(), tag, own);
    bool sent = false;
    if (sim::choose(3)) sent = c->send(make_packet({tag, 0, 0, 0, (uint32_t)sim::choose(40)}));
    if (sent && (ep & 1) && sim::choose(2)) {
      bool ok = sim::wait_until([&] { return N->echoed[tag] == 1 || N->epoch != ep; }, 60 * kSec);
      SIM_CHECK(ok, "packet-lost", "no echo from a server that is up");
    }
    maybe_pause(1000);
    // ends by our shutdown; the server going away may have done it before
    uint32_t mine = 0;
    { sim::NoPreempt g; mine = N->tag_of[c.get()]; }
    if (mine == tag) c->shutdown();
    bool ok = patient([&] { return c->socket()->id() == -1 || N->tag_of[c.get()] != tag; });
    SIM_CHECK(ok, "never-ended", "a connection that was shut down does not end");
    {
      sim::NoPreempt g;
      if (own && N->tag_of[c.get()] == tag) SIM_CHECK(N->cur[c.get()].own_disc_cb == 1, "callback-count", "the connection's own disconnect callback ran %d times", N->cur[c.get()].own_disc_cb);
      --N->busy;
    }
  }
}
}  // namespace

SCENARIO_STEPS(net_conn, 40000000) {
  auto wp = std::make_unique<NW>();
  NW &w = *wp;
  N = &w;
  auto &cfg = sim::config();
  cfg.p_stall /= 4;
  w.calm = sim::choose(4) == 3;
  if (w.calm) cfg.p_stall = cfg.p_leap = cfg.p_late = 0;
  quiet_logs();
  net_weather(true);
  simnet::cfg().p_accept = 0;
  if (simnet::cfg().cap < 300) simnet::cfg().cap = 300;
  w.lossy = sim::choose(2);
  if (w.lossy) simnet::cfg().p_conn_lost = 300;
  if (sim::choose(3) == 2) simnet::cfg().conn_delay_us = 30000;
  auto make_lst = [&] {
    net::setting_t st;
    st.address = "127.0.0.1:7000";
    st.name = "srv";
    st.mode = sim::choose(3) == 2 ? net::Mode::Select : net::Mode::Epoll;
    st.max_count = 32;
    st.default_count = 2;
    auto l = std::make_unique<net::Listener>(st, make_exec(sim::choose(4)));
    l->set_dispatcher([](Conn *c, Packet p) { Body b; if (parse(p, b)) c->send(make_packet({b.tag, 1, b.snd, b.no, b.len})); return true; });
    SIM_CHECK(l->start(), "start-failed", "listener did not start");
    return l;
  };
  net::setting_t ct;
  ct.name = "cli";
  ct.mode = sim::choose(3) == 2 ? net::Mode::Select : net::Mode::Epoll;
  ct.max_count = 4 + sim::choose(4);
  ct.default_count = 1 + sim::choose(3);
  auto con = std::make_unique<net::Connector>(ct, make_exec(sim::choose(4)));
  con->set_dispatcher([](Conn *c, Packet p) { return back(c, p, 0); });
  con->set_connect_callback([](Conn *) { sim::NoPreempt g; ++N->up; });
  con->set_disconnect_callback([](Conn *) { sim::NoPreempt g; ++N->down; });
  SIM_CHECK(con->start(), "start-failed", "connector did not start");
  std::unique_ptr<net::Listener> lst;
  auto set_up = [&](bool up) {
    if (up) { lst = make_lst(); sim::NoPreempt g; ++w.epoch; }
    else { { sim::NoPreempt g; ++w.epoch; } lst->stop(); lst.reset(); }
  };
  if (sim::choose(3)) set_up(true);
  bool moody = sim::choose(2);
  {
    std::vector<std::unique_ptr<Thr>> ts;
    int n = 1 + sim::choose(3);
    for (int i = 0; i < n; ++i) ts.push_back(std::make_unique<Thr>([&, i] { attempts(con.get(), i, 1 + sim::choose(5)); }));
    if (moody)
      for (int i = 0; i < 3; ++i) { sim::sleep_ns(1000ull * sim::choose(30000)); set_up(!(w.epoch & 1)); }
  }
  // Now all is well: the slots of failed and ended connections are free again.
  simnet::cfg().p_conn_lost = 0;
  if (!(w.epoch & 1)) set_up(true);
  SIM_CHECK(patient([&] { return w.up == w.down; }), "never-ended", "%d of %d connections have not ended", w.up - w.down, w.up);
  std::vector<ConnPtr> keep;
  // Ends of the last connections may still be under way.
  bool ok = patient([&] { return true; });
  for (int i = 0; i < (int)ct.max_count; ++i) {
    ConnPtr c;
    for (int j = 0; j < 3000 && !c; ++j) {
      c = con->connect("127.0.0.1:7000", [i](Conn *c) { sim::NoPreempt g; N->tag_of[c] = 7000 + (uint32_t)i; return true; }, ms(60000));
      if (!c) sim::sleep_ns(10 * kMs);
    }
    SIM_CHECK(c != nullptr, "slot-leak", "after failed attempts only %d of %u connections fit", i, ct.max_count);
    check_name(c.get(), 7000 + (uint32_t)i, false);
    SIM_CHECK(c->send(make_packet({7000 + (uint32_t)i, 0, 0, 0, 5})), "send-refused", "a packet was refused on a healthy connection");
    keep.push_back(c);
  }
  ok = patient([&] { for (uint32_t i = 0; i < ct.max_count; ++i) if (N->echoed[7000 + i] != 1) return false; return true; });
  SIM_CHECK(ok, "packet-lost", "an echo on a healthy connection is missing");
  SIM_CHECK(con->is_full(), "not-full", "is_full() is false with %u of %u connections", ct.max_count, ct.max_count);
  SIM_CHECK(!con->connect("127.0.0.1:7000", {}, ms(60000)), "over-capacity", "a connector for %u connections makes another one", ct.max_count);
  w.stopping = true;
  if (sim::choose(2)) { con->stop(); lst->stop(); } else { lst->stop(); con->stop(); }
  keep.clear();
  con.reset();
  lst.reset();
  SIM_CHECK(simnet::open_fds() == 0, "descriptor-leak", "%d descriptors are open at the end", simnet::open_fds());
}

// A kept connection: its slot stays with its owner, who connects it again when it ended.
namespace {
struct Kept { std::atomic<Conn *> slot{nullptr}, owned{nullptr}; uint32_t gen = 0; int up = 0, down = 0; std::map<uint32_t, int> echoed; };
Kept *K;
}
SCENARIO_STEPS(net_alive, 40000000) {
  auto wp = std::make_unique<NW>();
  auto kp = std::make_unique<Kept>();
  NW &w = *wp;
  N = &w;
  K = kp.get();
  auto &cfg = sim::config();
  cfg.p_stall /= 4;
  quiet_logs();
  net_weather(true);
  simnet::cfg().p_accept = 0;
  if (simnet::cfg().cap < 300) simnet::cfg().cap = 300;
  w.lossy = sim::choose(2);
  if (w.lossy) simnet::cfg().p_conn_lost = 300;
  auto make_lst = [&] {
    net::setting_t st;
    st.address = "127.0.0.1:7000";
    st.name = "srv";
    st.mode = sim::choose(3) == 2 ? net::Mode::Select : net::Mode::Epoll;
    st.max_count = 32;
    st.default_count = 2;
    auto l = std::make_unique<net::Listener>(st, make_exec(sim::choose(4)));
    l->set_dispatcher([](Conn *c, Packet p) {
      Body b;
      if (!parse(p, b)) sim::fail("packet-altered", "the server gets what no client sent");
      c->send(make_packet({b.tag, 1, b.snd, b.no, b.len}));
      return !(b.no & 1);  // an odd number asks for the end of the connection
    });
    SIM_CHECK(l->start(), "start-failed", "listener did not start");
    return l;
  };
  net::setting_t ct;
  ct.name = "cli";
  ct.mode = sim::choose(3) == 2 ? net::Mode::Select : net::Mode::Epoll;
  ct.max_count = 3 + sim::choose(3);
  ct.default_count = 1 + sim::choose(3);
  auto con = std::make_unique<net::Connector>(ct, make_exec(sim::choose(4)));
  con->set_dispatcher([](Conn *c, Packet p) {
    sim::NoPreempt g;
    Body b;
    SIM_CHECK(parse(p, b) && b.dir == 1, "packet-altered", "an echo is not what was sent");
    if (c == K->slot)  // (a late sender of an ended connection may hold the same slot)
      SIM_CHECK(b.tag >= 1000 || (b.tag >= 100 && b.tag <= K->gen), "stale-packet", "session %u of a kept connection gets a packet of %u", K->gen, b.tag);
    ++K->echoed[b.tag];
    return true;
  });
  con->set_connect_callback([](Conn *c) { sim::NoPreempt g; ++N->up; if (c == K->slot) ++K->up; });
  con->set_disconnect_callback([](Conn *c) { sim::NoPreempt g; ++N->down; if (c == K->slot) ++K->down; });
  SIM_CHECK(con->start(), "start-failed", "connector did not start");
  std::unique_ptr<net::Listener> lst;
  auto set_up = [&](bool up) {
    if (up) { lst = make_lst(); sim::NoPreempt g; ++w.epoch; }
    else { { sim::NoPreempt g; ++w.epoch; } lst->stop(); lst.reset(); }
  };
  set_up(true);
  bool over = false;
  {
    std::vector<std::unique_ptr<Thr>> ts;
    ts.push_back(std::make_unique<Thr>([&] {
      ConnPtr c;
      while (!c) {
        c = con->connect("127.0.0.1:7000", [&](Conn *p) { sim::NoPreempt g; K->slot = p; K->gen = 100; K->up = K->down = 0; con->set_keep_alive(p, true); return true; }, ms(1000));
        if (!c) { sim::NoPreempt g; K->slot = nullptr; }
        if (!c) sim::sleep_ns(5 * kMs);
      }
      { sim::NoPreempt g; K->owned = c.get(); SIM_CHECK(K->slot == K->owned, "slot-stolen", "the slot of a kept connection is given to another one"); }
      int rounds = 1 + sim::choose(4);
      for (int r = 0; r < rounds; ++r) {
        int ep;
        { sim::NoPreempt g; ep = w.epoch; }
        bool ask = sim::choose(2);
        int n = sim::choose(4);
        uint32_t gen = K->gen;
        bool sent = true;
        for (int i = 0; i < n; ++i) sent = c->send(make_packet({gen, 0, 0, (uint32_t)(2 * i), (uint32_t)sim::choose(60)})) && sent;
        if (ask && sent) sent = c->send(make_packet({gen, 0, 0, 1, 3}));
        if (!sent || !ask) c->shutdown();
        SIM_CHECK(patient([&] { return c->socket()->id() == -1; }), "never-ended", "a kept connection does not end");
        {
          sim::NoPreempt g;
          SIM_CHECK(K->down == r + 1 && K->up == r + 1, "callback-count", "a kept connection was made and ended %d times, its callbacks ran %d and %d times", r + 1, K->up, K->down);
          SIM_CHECK(K->echoed[gen] <= n + 1, "packet-duplicated", "%d packets were sent, %d came back", n + 1, K->echoed[gen]);
          K->gen = 101 + r;
        }
        (void)ep;
        bool again = false;
        for (int k = 0; !again; ++k) {
          static const int tos[] = {3, 50, 1000};
          int t = tos[sim::choose(3)], e0;
          { sim::NoPreempt g; e0 = w.epoch; if (k > 40) { simnet::cfg().p_conn_lost = 0; } }
          if (k > 40) t = 60000;
          uint64_t t0 = sim::now();
          again = con->connect(c, ms(t), "127.0.0.1:7000");
          uint64_t dt = sim::now() - t0;
          sim::NoPreempt g;
          if (!again && (e0 & 1) && e0 == w.epoch) SIM_CHECK(dt >= (uint64_t)t * kMs, "connect-failed", "reconnecting to a listening server failed after %llu us of %d ms (attempt %d)", (unsigned long long)(dt / 1000), t, k);
          if (!again && k > 200) sim::fail("connect-failed", "a kept connection can not be made again");
          if (!again) { sim::sleep_ns(3 * kMs); }
        }
        sim::probe("again");
        sim::NoPreempt g;
        int fd = c->socket()->id();
        if (fd != -1) SIM_CHECK(simnet::established(fd), "connect-lied", "connect() is true for a connection that is not established");
      }
      // Last: an ordinary end, with its slot given back.
      K->owned = nullptr;
      K->slot = nullptr;
      con->set_keep_alive(c, false);
      c->shutdown();
    }));
    int n = sim::choose(3);
    for (int i = 0; i < n; ++i)
      ts.push_back(std::make_unique<Thr>([&, i] {
        int m = 1 + sim::choose(5);
        for (int k = 0; k < m; ++k) {
          ConnPtr c = con->connect("127.0.0.1:7000", [&](Conn *p) {
            sim::NoPreempt g;
            SIM_CHECK(p != K->owned, "slot-stolen", "the slot of a kept connection is given to another one");
            if (p == K->slot) K->slot = nullptr;  // the attempt to make the kept one has just failed
            return true;
          }, ms(20));
          if (!c) { sim::sleep_ns(kMs); continue; }
          if (sim::choose(2)) c->send(make_packet({(uint32_t)(1000 + i * 100 + k), 0, 0, 0, 9}));
          maybe_pause(1000);
          c->shutdown();
        }
      }));
    if (sim::choose(2))
      for (int i = 0; i < 4; ++i) { sim::sleep_ns(1000ull * sim::choose(20000)); set_up(!(w.epoch & 1)); }
    ts.clear();
    over = true;
  }
  (void)over;
  { sim::NoPreempt g; simnet::cfg().p_conn_lost = 0; }
  SIM_CHECK(patient([&] { return w.up == w.down; }), "never-ended", "%d of %d connections have not ended", w.up - w.down, w.up);
  K->slot = nullptr;
  std::vector<ConnPtr> keep;
  for (int i = 0; i < (int)ct.max_count; ++i) {
    ConnPtr c;
    for (int j = 0; j < 3000 && !c; ++j) {
      c = con->connect("127.0.0.1:7000", {}, ms(60000));
      if (!c) sim::sleep_ns(10 * kMs);
    }
    SIM_CHECK(c != nullptr, "slot-leak", "after a kept connection ended only %d of %u connections fit", i, ct.max_count);
    keep.push_back(c);
  }
  con->stop();
  lst->stop();
  keep.clear();
  con.reset();
  lst.reset();
  SIM_CHECK(simnet::open_fds() == 0, "descriptor-leak", "%d descriptors are open at the end", simnet::open_fds());
}
