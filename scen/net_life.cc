// Connections come and go: by either side, by the network, refused at capacity.
#include "netc.h"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

using namespace netc;

namespace {
struct Side {
  std::map<Conn *, int> up;      // announced connections
  std::map<int, Conn *> id_up;
  int ups = 0, downs = 0, cur = 0, peak = 0;
};
struct LW {
  Side s[2];                     // 0 connector, 1 listener
  int cap = 0;
  std::map<uint32_t, uint32_t> echo_sent, echo_recv;   // witness traffic
  Conn *witness_c = nullptr, *witness_s = nullptr;
  std::mutex user;               // a lock of the application
  bool locks = false, stopping = false;
  uint32_t served = 0;
};
LW *L;
constexpr uint32_t kWitness = 1000, kBye = 7, kShut = 8;

bool packet(int side, Conn *c, const Packet &p);
void up(int side, Conn *c) {
  if (L->locks) { std::lock_guard<std::mutex> g(L->user); sim::yield(); }
  sim::NoPreempt g;
  Side &s = L->s[side];
  ++s.ups;
  sim::event("side %d up %d", side, (int)c->id());
  SIM_CHECK(!s.up[c], "connect-twice", "side %d: connection %d is announced a second time without a disconnect between", side, (int)c->id());
  SIM_CHECK(!s.id_up.count(c->id()), "id-shared", "side %d: two live connections have id %d", side, (int)c->id());
  s.up[c] = 1;
  s.id_up[c->id()] = c;
  if (++s.cur > s.peak) s.peak = s.cur;
  SIM_CHECK(side == 0 || s.cur <= L->cap, "over-capacity", "%d connections on a listener limited to %d", s.cur, L->cap);
  // Some have a dispatcher of their own.
  if (sim::choose(2)) c->set_dispatcher([side](Conn *c, Packet p) { return packet(side, c, p); });
}
void down(int side, Conn *c) {
  if (L->locks) { std::lock_guard<std::mutex> g(L->user); sim::yield(); }
  sim::NoPreempt g;
  Side &s = L->s[side];
  ++s.downs;
  sim::event("side %d down %d", side, (int)c->id());
  SIM_CHECK(s.up[c], "disconnect-unpaired", "side %d: connection %d is disconnected without having been announced, or twice", side, (int)c->id());
  if (!L->stopping) {
    SIM_CHECK(c != L->witness_c && c != L->witness_s, "bystander-dropped", "side %d: the connection %d of a bystander was dropped", side, (int)c->id());
  }
  s.up[c] = 0;
  s.id_up.erase(c->id());
  --s.cur;
}
bool packet(int side, Conn *c, const Packet &p) {
  Body b;
  {
    sim::NoPreempt g;
    SIM_CHECK(parse(p, b), "packet-altered", "side %d: a packet of %zu bytes is not what was sent", side, p->data().size());
    SIM_CHECK(L->s[side].up[c], "packet-outside-life", "side %d: connection %d delivers a packet outside connect and disconnect", side, (int)c->id());
    ++L->served;
    if (side == 0) { if (b.tag == kWitness) ++L->echo_recv[0]; return true; }
    if (b.tag == kWitness) L->witness_s = c;
  }
  if (b.dir == kBye) return false;
  if (b.dir == kShut) { c->shutdown(); return true; }
  Body r{b.tag, 1, b.snd, b.no, b.len};
  c->send(make_packet(r));
  return true;
}
int raw_connect() {
  int fd = ::socket(AF_INET, SOCK_STREAM, 0);
  SIM_CHECK(fd >= 0, "harness", "socket");
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons(7000);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (::connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof(a)) != 0) { ::close(fd); return -1; }
  return fd;
}
void actor(net::Connector *con, int i) {
  int rounds = 1 + sim::choose(3);
  for (int k = 0; k < rounds; ++k) {
    maybe_pause(2000);
    if (sim::choose(3) == 2) {   // a foreign client
      int fd = raw_connect();
      if (fd < 0) continue;
      if (sim::choose(2)) {
        Packet p = make_packet({(uint32_t)i, 0, 0, 0, (uint32_t)sim::choose(50)});
        auto bytes = net::stream::encode(p);
        size_t n = sim::choose(2) ? bytes.size() : sim::choose((uint32_t)bytes.size() + 1);
        ::send(fd, bytes.data(), n, MSG_NOSIGNAL);
      }
      maybe_pause(500);
      if (sim::choose(4) == 3) simnet::reset_fd(fd);
      ::close(fd);
      continue;
    }
    ConnPtr c;
    if (L->locks && sim::choose(2)) {
      // an application that keeps its own lock while it talks to the library
      std::lock_guard<std::mutex> g(L->user);
      con->get_conn(1);
      con->is_full();
    }
    c = con->connect("127.0.0.1:7000", {}, ms(60000));
    if (!c) continue;
    int n = sim::choose(4);
    for (int m = 0; m < n; ++m) { c->send(make_packet({(uint32_t)i, 0, 0, (uint32_t)m, (uint32_t)sim::choose(60)})); maybe_pause(300); }
    switch (sim::choose(5)) {
      case 0: c->shutdown(); break;
      case 1: c->send(make_packet({(uint32_t)i, kBye, 0, 0, 5})); break;
      case 2: c->send(make_packet({(uint32_t)i, kShut, 0, 0, 5})); break;
      case 3: { int fd = c->socket()->id(); if (fd != -1) simnet::reset_fd(fd); break; }
      default: c->send(make_packet({(uint32_t)i, kBye, 0, 0, 5})); c->shutdown(); break;
    }
    Conn *p = c.get();
    bool gone = patient([&] { return !L->s[0].up[p]; });
    SIM_CHECK(gone, "disconnect-missing", "the client was not told within a minute that connection %d ended", (int)c->id());
  }
}
}  // namespace

SCENARIO_STEPS(net_life, 20000000) {
  auto wp = std::make_unique<LW>();
  LW &w = *wp;
  L = &w;
  auto &cfg = sim::config();
  cfg.p_stall /= 4;
  quiet_logs();
  net_weather(true);
  if (simnet::cfg().cap < 300) simnet::cfg().cap = 300;
  bool sel = sim::choose(3) == 2, selc = sim::choose(3) == 2;
  w.locks = sim::choose(3) == 2;
  w.cap = 2 + sim::choose(4);
  net::setting_t st;
  st.address = "127.0.0.1:7000";
  st.name = "srv";
  st.mode = sel ? net::Mode::Select : net::Mode::Epoll;
  st.max_count = w.cap;
  st.default_count = 1 + sim::choose(2);
  if (sim::choose(4) == 3) simnet::cfg().p_accept = 100;
  auto lst = std::make_unique<net::Listener>(st, make_exec(sim::choose(4)));
  lst->set_dispatcher([](Conn *c, Packet p) { return packet(1, c, p); });
  lst->set_connect_callback([](Conn *c) { up(1, c); });
  lst->set_disconnect_callback([](Conn *c) { down(1, c); });
  SIM_CHECK(lst->start(), "start-failed", "listener did not start");
  net::setting_t ct;
  ct.name = "cli";
  ct.mode = selc ? net::Mode::Select : net::Mode::Epoll;
  ct.max_count = 8;
  ct.default_count = 1;
  auto con = std::make_unique<net::Connector>(ct, make_exec(sim::choose(4)));
  con->set_dispatcher([](Conn *c, Packet p) { return packet(0, c, p); });
  con->set_connect_callback([](Conn *c) { up(0, c); });
  con->set_disconnect_callback([](Conn *c) { down(0, c); });
  SIM_CHECK(con->start(), "start-failed", "connector did not start");
  int base = simnet::open_fds();
  // A bystander that is connected all the time and must not notice anything.
  ConnPtr wit = con->connect("127.0.0.1:7000", {}, ms(60000));
  SIM_CHECK(wit != nullptr, "connect-failed", "the first connection was refused");
  w.witness_c = wit.get();
  auto ping = [&] {
    uint32_t n = w.echo_sent[0]++;
    SIM_CHECK(wit->send(make_packet({kWitness, 0, 0, n, (uint32_t)sim::choose(40)})), "send-refused", "the bystander's packet was refused");
    bool ok = patient([&] { return w.echo_recv[0] > n; });
    if (!ok) { simnet::dump(); sim::fail("bystander-starved", "the bystander's packet %u was not answered within a minute", n); }
  };
  ping();
  {
    int n = 1 + sim::choose(4);
    std::vector<std::unique_ptr<Thr>> ts;
    for (int i = 0; i < n; ++i) ts.push_back(std::make_unique<Thr>([&, i] { actor(con.get(), i); }));
    int pings = 1 + sim::choose(3);
    for (int i = 0; i < pings; ++i) { ping(); maybe_pause(2000); }
  }
  simnet::cfg().p_accept = 0;
  ping();
  // Everybody else has left: both sides must come back to the bystander alone.
  bool ok = patient([&] { return w.s[0].cur == 1 && w.s[1].cur == 1; });
  if (!ok) { simnet::dump(); sim::fail("disconnect-missing", "a minute after everybody left the client side has %d and the server side %d live connections besides the bystander", w.s[0].cur - 1, w.s[1].cur - 1); }
  ok = patient([&] { return simnet::open_fds() == base + 2; });
  if (!ok) { simnet::dump(); sim::fail("descriptor-leak", "%d descriptors are open, %d expected", simnet::open_fds(), base + 2); }
  // Freed slots are usable again: fill the listener up to its limit.
  // A slot may become free only a moment after its disconnect callback.
  std::vector<ConnPtr> fill;
  ok = false;
  for (int tries = 0; tries < 400 && !ok; ++tries) {
    while (w.s[0].cur < w.cap) {
      ConnPtr c = con->connect("127.0.0.1:7000", {}, ms(60000));
      if (!c) { sim::sleep_ns(kMs); break; }
      fill.push_back(c);
    }
    ok = sim::wait_until([&] { return w.s[1].cur == w.cap && w.s[0].cur == w.cap; }, 2 * kSec, kMs);
  }
  SIM_CHECK(ok, "slot-leak", "only %d of %d slots of the listener could be used again", w.s[1].cur, w.cap);
  // One more is turned away, not left waiting.
  if (sim::choose(2)) {
    int ups = w.s[1].ups;
    int fd = raw_connect();
    if (fd >= 0) {
      ::fcntl(fd, F_SETFL, ::fcntl(fd, F_GETFL, 0) | O_NONBLOCK);
      char b;
      // served after all if one that was counted above had been reset before
      ok = patient([&] { if (w.s[1].ups > ups) return true; ssize_t r = ::recv(fd, &b, 1, 0); return r == 0 || (r < 0 && errno != EAGAIN && errno != EINTR); });
      SIM_CHECK(ok, "not-refused", "a client beyond the limit of the listener is neither served nor turned away");
      ::close(fd);
    }
    sim::probe("turned_away");
  }
  ping();
  w.stopping = true;
  if (sim::choose(2)) { con->stop(); lst->stop(); } else { lst->stop(); con->stop(); }
  fill.clear();
  wit.reset();
  con.reset();
  lst.reset();
  SIM_CHECK(simnet::open_fds() == 0, "descriptor-leak", "%d descriptors are open after both sides are gone", simnet::open_fds());
  if (w.s[1].peak == w.cap) sim::probe("at_capacity");
  if (w.locks) sim::probe("callbacks_take_user_lock");
}
