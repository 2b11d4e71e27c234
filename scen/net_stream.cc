// Packet streams between a listener and its connectors over a simulated network.
#include "netc.h"

using namespace netc;

namespace {
struct Flow { uint32_t sent = 0, recv = 0; std::vector<std::pair<uint64_t, uint64_t>> call; };
struct SW {
  std::map<std::array<uint32_t, 3>, Flow> flows;   // tag, dir, sender
  std::map<uint32_t, ConnPtr> srv;                 // tag -> server connection
  std::map<Conn *, uint32_t> tag_of;
  uint64_t bytes[2] = {0, 0};
  std::map<Conn *, int> in_cb;
  std::map<std::pair<int, int>, int> up;           // side, id -> connected
  int ups[2] = {0, 0}, downs[2] = {0, 0};
  std::map<std::pair<uint32_t, uint32_t>, uint64_t> latest;   // tag, dir -> begin of the latest begun send delivered
  std::map<Conn *, std::vector<uint32_t>> casts;   // broadcasts a client connection got
  std::vector<std::set<uint32_t>> cast_to;         // per broadcast: clients that were known to be up
  bool line = false, echo = false, stopping = false;
};
SW *S;

bool send_logged(Conn *c, const Packet &p, const Body &b) {
  size_t i;
  { sim::NoPreempt g; Flow &f = S->flows[{b.tag, b.dir, b.snd}]; ++f.sent; i = f.call.size(); f.call.emplace_back(sim::seqno(), 0); }
  bool ok = c->send(p);
  { sim::NoPreempt g; S->flows[{b.tag, b.dir, b.snd}].call[i].second = sim::seqno(); }
  return ok;
}

bool on_packet(int side, Conn *c, const Packet &p, net::Listener *l) {
  Body b;
  ConnPtr reply;
  {
    sim::NoPreempt g;
    SIM_CHECK(parse(p, b, S->line), "packet-altered", "side %d, connection %d: a packet of %zu bytes (id %d) is not what was sent", side, (int)c->id(), p->data().size(), (int)p->id());
    SIM_CHECK(b.dir == (uint32_t)(1 - side), "packet-misrouted", "a packet sent in direction %u arrived at side %d", b.dir, side);
    if (++S->in_cb[c] != 1) sim::fail("concurrent-dispatch", "connection %d: two packets are dispatched at the same time", (int)c->id());
    if (b.tag == 9999) {
      auto &v = S->casts[c];
      SIM_CHECK(b.no < S->cast_to.size(), "packet-from-nowhere", "broadcast %u was never sent", b.no);
      SIM_CHECK(v.empty() || v.back() < b.no, "broadcast-order", "client connection %d gets broadcast %u after %u", (int)c->id(), b.no, v.back());
      v.push_back(b.no);
      --S->in_cb[c];
      return true;
    }
    Flow &f = S->flows[{b.tag, b.dir, b.snd}];
    sim::event("side %d got %u/%u/%u", side, b.tag, b.snd, b.no);
    SIM_CHECK(b.no == f.recv, "packet-order", "tag %u dir %u sender %u: got packet %u, expected %u", b.tag, b.dir, b.snd, b.no, f.recv);
    SIM_CHECK(f.recv < f.sent, "packet-from-nowhere", "tag %u: packet %u was never sent", b.tag, b.no);
    auto [beg, end] = f.call[b.no];
    uint64_t &lt = S->latest[{b.tag, b.dir}];
    SIM_CHECK(end == 0 || end > lt, "packet-order", "tag %u dir %u: packet %u of sender %u arrives after one whose send began when its own send had returned", b.tag, b.dir, b.no, b.snd);
    if (beg > lt) lt = beg;
    ++f.recv;
    if (side == 1) {
      auto it = S->tag_of.find(c);
      if (it == S->tag_of.end()) { S->tag_of[c] = b.tag; }
      else SIM_CHECK(it->second == b.tag, "packet-misrouted", "connection %d carries packets of clients %u and %u", (int)c->id(), it->second, b.tag);
    }
  }
  if (side == 1) {
    bool first;
    { sim::NoPreempt g; first = !S->srv.count(b.tag); }
    if (first) { auto cp = l->get_conn(c->id()); sim::NoPreempt g; S->srv[b.tag] = cp; }
    if (S->echo && b.snd == 0) {
      Body r{b.tag, 1, 100, b.no, b.len / 2};
      Packet q = make_packet(r, S->line);
      bool ok = send_logged(c, q, r);
      SIM_CHECK(ok, "send-refused", "an echo was refused on a healthy connection");
    }
  }
  sim::NoPreempt g;
  --S->in_cb[c];
  return true;
}

void sender(ConnPtr c, uint32_t tag, uint32_t dir, uint32_t snd, int n, int big) {
  for (int i = 0; i < n; ++i) {
    Body b{tag, dir, snd, (uint32_t)i, (uint32_t)sim::choose(sim::choose(4) == 3 ? big : 20)};
    Packet p = make_packet(b, S->line);
    bool ok = send_logged(c.get(), p, b);
    SIM_CHECK(ok, "send-refused", "tag %u dir %u: packet %d was refused on a healthy connection", tag, dir, i);
    maybe_pause(400);
  }
}
}  // namespace

SCENARIO_STEPS(net_stream, 60000000) {
  SW w;
  S = &w;
  auto &cfg = sim::config();
  cfg.p_stall /= 4;
  quiet_logs();
  net_weather(true);
  w.line = sim::choose(3) == 2;
  w.echo = sim::choose(2);
  bool sel = sim::choose(3) == 2;
  bool selc = sim::choose(3) == 2;
  int ex1 = sim::choose(4), ex2 = sim::choose(4);
  net::setting_t st;
  st.address = "127.0.0.1:7000";
  st.name = "srv";
  st.mode = sel ? net::Mode::Select : net::Mode::Epoll;
  st.max_count = 8;
  st.default_count = 1 + sim::choose(3);
  auto lst = std::make_unique<net::Listener>(st, make_exec(ex1));
  auto *L = lst.get();
  if (w.line) lst->set_codec({.encode = net::stream::line_encode, .decode = net::stream::line_decode});
  lst->set_dispatcher([L](Conn *c, Packet p) { return on_packet(1, c, p, L); });
  lst->set_connect_callback([](Conn *c) { sim::NoPreempt g; ++S->ups[1]; });
  lst->set_disconnect_callback([](Conn *c) { sim::NoPreempt g; ++S->downs[1]; SIM_CHECK(S->stopping, "lost-connection", "the server dropped healthy connection %d", (int)c->id()); });
  SIM_CHECK(lst->start(), "start-failed", "listener did not start");
  net::setting_t ct;
  ct.name = "cli";
  ct.mode = selc ? net::Mode::Select : net::Mode::Epoll;
  ct.max_count = 8;
  ct.default_count = 1;
  auto con = std::make_unique<net::Connector>(ct, make_exec(ex2));
  if (w.line) con->set_codec({.encode = net::stream::line_encode, .decode = net::stream::line_decode});
  con->set_dispatcher([](Conn *c, Packet p) { return on_packet(0, c, p, nullptr); });
  con->set_connect_callback([](Conn *c) { sim::NoPreempt g; ++S->ups[0]; });
  con->set_disconnect_callback([](Conn *c) { sim::NoPreempt g; ++S->downs[0]; SIM_CHECK(S->stopping, "lost-connection", "the client dropped healthy connection %d", (int)c->id()); });
  SIM_CHECK(con->start(), "start-failed", "connector did not start");
  int nconn = 1 + sim::choose(3);
  int npk = 1 + sim::choose(sim::choose(4) == 3 ? 40 : 8);
  int big = sim::choose(3) == 2 ? 1500 : 200;
  if (simnet::cfg().cap <= 300) { big = 100; if (npk > 12) npk = 12; }
  int two = sim::choose(2), srv_send = sim::choose(2);
  int casts = sim::choose(3) == 2 ? 1 + sim::choose(6) : 0;
  std::vector<ConnPtr> keep;
  std::map<uint32_t, Conn *> cli;
  {
    std::vector<std::unique_ptr<Thr>> ts;
    for (int i = 0; i < nconn; ++i) {
      ts.push_back(std::make_unique<Thr>([&, i] {
        maybe_pause(1000);
        ConnPtr c = con->connect("127.0.0.1:7000", {}, ms(60000));
        SIM_CHECK(c != nullptr, "connect-failed", "client %d could not connect to a healthy server", i);
        { sim::NoPreempt g; keep.push_back(c); cli[i] = c.get(); }
        if (two) {
          Thr t([&] { sender(c, i, 0, 1, npk / 2 + 1, big); });
          sender(c, i, 0, 0, npk, big);
        } else sender(c, i, 0, 0, npk, big);
      }));
      if (srv_send)
        ts.push_back(std::make_unique<Thr>([&, i] {
          eventually([&] { return w.srv.count(i) > 0; }, "packet-lost", "the first packet of a client");
          ConnPtr c;
          { sim::NoPreempt g; c = w.srv[i]; }
          sender(c, i, 1, 0, npk, big);
        }));
    }
    if (casts)
      ts.push_back(std::make_unique<Thr>([&] {
        for (int k = 0; k < casts; ++k) {
          { sim::NoPreempt g; w.cast_to.emplace_back(); for (auto &[t, c] : w.srv) w.cast_to.back().insert(t); }
          lst->broadcast(make_packet({9999, 1, 0, (uint32_t)k, (uint32_t)sim::choose(100)}, w.line));
          maybe_pause(2000);
        }
      }));
  }
  auto got = [&] { sim::NoPreempt g; uint64_t n = 0; for (auto &[k, f] : w.flows) n += f.recv; for (auto &[c, v] : w.casts) n += v.size(); return n; };
  auto all = [&] { sim::NoPreempt g; for (auto &[k, f] : w.flows) if (f.recv != f.sent) return false;
    for (uint32_t k = 0; k < w.cast_to.size(); ++k)
      for (uint32_t t : w.cast_to[k]) { auto &v = w.casts[cli[t]]; if (!std::count(v.begin(), v.end(), k)) return false; }
    return true; };
  // as long as packets keep coming it is only slow; then a minute of quiet
  for (uint64_t n = ~0ull; !all() && n != got();) { n = got(); patient([&] { return n != got() || all(); }); }
  if (!all()) {
    simnet::dump();
    for (auto &[k, f] : w.flows)
      if (f.recv != f.sent)
        sim::fail("packet-lost", "tag %u direction %u sender %u: %u packets sent, %u delivered after a minute of quiet", k[0], k[1], k[2], f.sent, f.recv);
    sim::fail("broadcast-lost", "a broadcast did not reach every connection that was up before it");
  }
  SIM_CHECK(w.ups[0] == nconn && w.ups[1] == nconn, "callback-count", "%d connections, %d client and %d server connect callbacks", nconn, w.ups[0], w.ups[1]);
  SIM_CHECK(patient([&] { return lst->send_size() == con->recv_size() && con->send_size() == lst->recv_size(); }), "accounting", "server sent %llu, client received %llu; client sent %llu, server received %llu", (unsigned long long)lst->send_size(), (unsigned long long)con->recv_size(), (unsigned long long)con->send_size(), (unsigned long long)lst->recv_size());
  w.stopping = true;
  if (sim::choose(2)) { con->stop(); lst->stop(); } else { lst->stop(); con->stop(); }
  w.srv.clear();
  keep.clear();
  con.reset();
  lst.reset();
  if (sel) sim::probe("select_server"); else sim::probe("epoll_server");
}
