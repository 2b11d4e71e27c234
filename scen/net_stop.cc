// Stopping a listener or a connector at any instant.
#include "netc.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

using namespace netc;

namespace {
struct TW {
  bool stopped[2] = {false, false};   // stop() of this side has returned
  bool going[2] = {false, false};     // stop() of this side has begun
  int up[2] = {0, 0}, down[2] = {0, 0};
  std::map<Conn *, int> live;         // client side
  bool quit = false;
  int running_cb[2] = {0, 0};
};
TW *T;
struct Cb {
  int side;
  Cb(int s, const char *what) : side(s) {
    sim::NoPreempt g;
    SIM_CHECK(!T->stopped[s], "callback-after-stop", "%s of the %s begins after its stop() returned", what, s ? "listener" : "connector");
    ++T->running_cb[s];
  }
  ~Cb() { sim::NoPreempt g; --T->running_cb[side]; }
};
bool packet(int side, Conn *c, const Packet &p) {
  Cb cb(side, "the dispatcher");
  Body b;
  { sim::NoPreempt g; SIM_CHECK(parse(p, b), "packet-altered", "side %d: a packet of %zu bytes is not what was sent", side, p->data().size()); }
  if (sim::choose(8) == 7) sim::sleep_ns(1000ull * sim::choose(500));
  if (side == 1) {
    if (b.dir == 7) return false;
    c->send(make_packet({b.tag, 1, b.snd, b.no, b.len}));
  } else if (b.no % 3 == 2) c->send(make_packet({b.tag, 0, 1, b.no, b.len}));
  return true;
}
void client(net::Connector *con, int i) {
  uint32_t n = 0;
  for (int k = 0; k < 12; ++k) {
    { sim::NoPreempt g; if (T->quit) return; }
    ConnPtr c = con->connect("127.0.0.1:7000", {}, ms(50));
    if (!c) { maybe_pause(500); continue; }
    int m = sim::choose(5);
    for (int j = 0; j < m; ++j) { c->send(make_packet({(uint32_t)i, 0, 0, n++, (uint32_t)sim::choose(60)})); maybe_pause(200); }
    switch (sim::choose(4)) {
      case 1: c->shutdown(); break;
      case 2: c->send(make_packet({(uint32_t)i, 7, 0, 0, 3})); break;
      default: break;   // stays
    }
    maybe_pause(400);
  }
}
}  // namespace

SCENARIO_STEPS(net_stop, 20000000) {
  auto wp = std::make_unique<TW>();
  TW &w = *wp;
  T = &w;
  auto &cfg = sim::config();
  cfg.p_stall /= 4;
  quiet_logs();
  net_weather(true);
  if (simnet::cfg().cap < 300) simnet::cfg().cap = 300;
  net::setting_t st;
  st.address = "127.0.0.1:7000";
  st.name = "srv";
  st.mode = sim::choose(3) == 2 ? net::Mode::Select : net::Mode::Epoll;
  st.max_count = 4;
  st.default_count = 1 + sim::choose(2);
  auto lst = std::make_unique<net::Listener>(st, make_exec(sim::choose(4)));
  lst->set_dispatcher([](Conn *c, Packet p) { return packet(1, c, p); });
  lst->set_connect_callback([](Conn *c) { Cb cb(1, "the connect callback"); sim::NoPreempt g; ++T->up[1]; });
  lst->set_disconnect_callback([](Conn *c) { Cb cb(1, "the disconnect callback"); sim::NoPreempt g; ++T->down[1]; });
  net::setting_t ct;
  ct.name = "cli";
  ct.mode = sim::choose(3) == 2 ? net::Mode::Select : net::Mode::Epoll;
  ct.max_count = 8;
  ct.default_count = 1;
  auto con = std::make_unique<net::Connector>(ct, make_exec(sim::choose(4)));
  con->set_dispatcher([](Conn *c, Packet p) { return packet(0, c, p); });
  con->set_connect_callback([](Conn *c) { sim::NoPreempt g; ++T->up[0]; T->live[c] = 1; });
  con->set_disconnect_callback([](Conn *c) { Cb cb(0, "the disconnect callback"); sim::NoPreempt g; ++T->down[0]; T->live[c] = 0; });
  bool never = sim::choose(12) == 11;     // stop without start
  if (!never) {
    SIM_CHECK(lst->start(), "start-failed", "listener did not start");
    SIM_CHECK(con->start(), "start-failed", "connector did not start");
  }
  int clients = never ? 0 : sim::choose(4);
  auto stop = [&](int side) {
    { sim::NoPreempt g; w.going[side] = true; }
    bool first = side ? lst->running() : con->running();
    if (side) lst->stop(); else con->stop();
    (void)first;
  };
  {
    std::vector<std::unique_ptr<Thr>> ts;
    for (int i = 0; i < clients; ++i) ts.push_back(std::make_unique<Thr>([&, i] { client(con.get(), i); }));
    static const uint32_t delays[] = {0, 100, 2000, 20000};
    if (uint32_t d = delays[sim::choose(4)]) sim::sleep_ns(1000ull * sim::choose(d));
    int side = sim::choose(2);
    int style = sim::choose(3);
    if (style == 0) {
      // one side, the other goes on and must notice
      stop(side);
      { sim::NoPreempt g; w.stopped[side] = true; SIM_CHECK(w.running_cb[side] == 0, "callback-during-stop", "a callback is still running when stop() returns"); }
      SIM_CHECK(!(side ? lst->running() : con->running()), "still-running", "running() after stop()");
      maybe_pause(2000);
      { sim::NoPreempt g; w.quit = true; }
    } else if (style == 1) {
      // both at once from two threads
      { sim::NoPreempt g; w.quit = true; }
      Thr t([&] { stop(1 - side); sim::NoPreempt g; w.stopped[1 - side] = true; SIM_CHECK(w.running_cb[1 - side] == 0, "callback-during-stop", "a callback is still running when stop() returns"); });
      stop(side);
      { sim::NoPreempt g; w.stopped[side] = true; SIM_CHECK(w.running_cb[side] == 0, "callback-during-stop", "a callback is still running when stop() returns"); }
    } else {
      { sim::NoPreempt g; w.quit = true; }
    }
    ts.clear();
    if (style == 0 && side == 1 && !never) {
      // The server is gone: every client connection that it had accepted ends.
      lst.reset();
      bool ok = patient([&] { return w.up[0] == w.down[0]; });
      SIM_CHECK(ok, "peer-not-told", "the server is gone but %d of %d client connections have not ended", w.up[0] - w.down[0], w.up[0]);
      ConnPtr c = con->connect("127.0.0.1:7000", {}, ms(100));
      SIM_CHECK(!c, "ghost-listener", "a connection to the destroyed listener succeeded");
    }
    if (style == 0 && side == 0 && !never) {
      con.reset();
      bool ok = patient([&] { return w.up[1] == w.down[1]; });
      SIM_CHECK(ok, "peer-not-told", "the clients are gone but %d of %d server connections have not ended", w.up[1] - w.down[1], w.up[1]);
    }
  }
  // stop again, or just destroy
  if (con && sim::choose(2)) con->stop();
  if (lst && sim::choose(2)) lst->stop();
  if (sim::choose(2)) { con.reset(); lst.reset(); } else { lst.reset(); con.reset(); }
  SIM_CHECK(simnet::open_fds() == 0, "descriptor-leak", "%d descriptors are open after both sides are gone", simnet::open_fds());
  // Both names are free again.
  net::setting_t s2 = st;
  auto again = std::make_unique<net::Listener>(s2, make_exec(0));
  SIM_CHECK(again->start(), "restart-failed", "a new listener on the address of a destroyed one does not start");
  int fd = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons(7000);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  SIM_CHECK(::connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof(a)) == 0, "restart-failed", "the new listener refuses a connection");
  ::close(fd);
  again->stop();
  again.reset();
  SIM_CHECK(simnet::open_fds() == 0, "descriptor-leak", "%d descriptors are open at the end", simnet::open_fds());
}
