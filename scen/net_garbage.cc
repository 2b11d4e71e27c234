// Peers that send anything at all.
#include "netc.h"
#include <arpa/inet.h>
#include <array>
#include <future>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

using namespace netc;

namespace {
struct Ref { std::vector<std::pair<int, std::string>> packets; bool invalid = false, loose = false; };
struct Peer { Ref ref; bool hostile = false; size_t got = 0; int up = 0, down = 0; };
struct GW {
  std::map<uint16_t, Peer> peers;          // by the port of the hostile client
  std::map<Conn *, uint16_t> port_of;
  std::map<uint32_t, uint32_t> echoed;     // bystander
  uint32_t max_id = 65535, max_len = 200;
  bool line = false, stopping = false;
  int lost = 0;
};
GW *G;

void be(std::string &s, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) s += (char)(v >> 8 * i); }
std::string junk(int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)sim::choose(256); return s; }
std::string frame(uint32_t id, uint32_t len, const std::string &body) { std::string s; be(s, id, 2); be(s, len, 4); return s + body; }

// What the wire format says the bytes mean.
Ref reference(const std::string &s) {
  Ref r;
  size_t i = 0;
  if (G->line) {
    for (;;) {
      size_t e = s.find('\n', i);
      if (e == std::string::npos ? s.size() - i >= G->max_len : e - i >= G->max_len) { r.invalid = true; return r; }
      if (e == std::string::npos) return r;
      std::string l = s.substr(i, e - i);
      if (!l.empty() && l.back() == '\r') l.pop_back();
      i = e + 1;
      // Lines in the form of remote calls are not dispatched.
      auto form = [&](size_t min, char k) { size_t n = l.size(); return n >= min && l[0] == 'c' && l[1] == k && l[n - 2] == k && l[n - 1] == 'c'; };
      if (form(9, 'r')) continue;
      if (form(13, 'o')) { if (l.substr(2, 4) != std::string(4, 0)) { r.loose = true; return r; } continue; }
      if (form(5, 'n')) continue;
      r.packets.emplace_back(0, l);
    }
  }
  auto u = [&](size_t k, int n) { uint32_t v = 0; for (int j = 0; j < n; ++j) v = v << 8 | (uint8_t)s[k + j]; return v; };
  while (s.size() - i >= 6) {
    uint32_t id = u(i, 2), len = u(i + 2, 4);
    if (id == 0 || id > G->max_id || len > G->max_len) { r.invalid = true; return r; }
    if (s.size() - i < 6 + (size_t)len) return r;
    // An answer that nobody waits for: what follows is not specified.
    if (id == 65533 && len >= 4 && u(i + 6, 4) != 0) { r.loose = true; return r; }
    if (id < 65532 || id > 65534) r.packets.emplace_back(id, s.substr(i + 6, len));
    i += 6 + len;
  }
  return r;
}
// Arguments as a broken or hostile caller may pack them.
std::string bad_args() {
  std::string s;
  int n = sim::choose(5);
  for (int i = 0; i < n; ++i) {
    switch (sim::choose(9)) {
      case 0: s += (char)(0x90 | sim::choose(16)); break;                                   // short array or map
      case 1: s += (char)22; be(s, sim::choose(3) ? 0xffff : sim::choose(30), 2); break;    // Array16
      case 2: s += (char)23; be(s, sim::choose(3) ? 0xffffffff : sim::choose(30), 4); break;// Array32
      case 3: s += (char)24; be(s, sim::choose(3) ? 0xffff : sim::choose(30), 2); break;    // Map16
      case 4: s += (char)25; be(s, 0xfffffff0, 4); break;                                   // Map32
      case 5: s += (char)(19 + sim::choose(3)); be(s, sim::choose(2) ? 0xffffffff : 3, 1 + sim::choose(4)); break;  // Str
      case 6: s += (char)(0xa0 | sim::choose(32)); s += junk(sim::choose(8)); break;        // short string
      case 7: s += (char)(1 + sim::choose(10)); s += junk(sim::choose(9)); break;           // numbers
      default: s += junk(1 + sim::choose(12));
    }
  }
  return s;
}
std::string rpc_body(bool index) {
  static const char *names[] = {"str", "vec", "map", "arr", "num", "bin", "nobody", ""};
  std::string s, n = names[sim::choose(8)];
  if (index) be(s, sim::choose(4), 4);
  if (sim::choose(6) == 5) return s + junk(sim::choose(9));
  be(s, sim::choose(10) == 9 ? 0xffffffff : n.size(), 4);
  s += n + bad_args();
  if (sim::choose(5) == 4) s.resize(sim::choose((uint32_t)s.size() + 1));
  return s;
}
std::string stream() {
  std::string s;
  int n = 1 + sim::choose(sim::choose(4) == 3 ? 30 : 6);
  for (int i = 0; i < n; ++i) {
    if (G->line) {
      std::string l;
      if (sim::choose(5) == 4) {
        static const char forms[] = {'r', 'o', 'n'};
        char k = forms[sim::choose(3)];
        l = std::string("c") + k + rpc_body(k != 'n').substr(0, 60) + k + "c";
        s += l + "\n";
        continue;
      }
      int len = sim::choose(8) == 7 ? (int)G->max_len - 2 + sim::choose(4) : sim::choose(20);
      bool text = sim::choose(2);
      for (int k = 0; k < len; ++k) l += text ? (char)('a' + sim::choose(26)) : (char)(11 + sim::choose(240));
      s += l;
      if (sim::choose(12) != 11) s += sim::choose(4) == 3 ? "\r\n" : "\n";
      continue;
    }
    switch (sim::choose(12)) {
      case 5: case 6: case 7: { std::string b = rpc_body(true); s += frame(65534, (uint32_t)b.size(), b); break; }
      case 8: { std::string b = rpc_body(false); s += frame(65532, (uint32_t)b.size(), b); break; }
      case 9: { std::string b = junk(sim::choose(20)); if (sim::choose(2)) { b.clear(); be(b, sim::choose(3), 4); be(b, 0, 4); } s += frame(65533, (uint32_t)b.size(), b); break; }
      case 10:
        switch (sim::choose(5)) {
          case 0: s += frame(0, 3, "abc"); break;
          case 1: s += frame(G->max_id + 1, 3, "abc"); break;
          case 2: s += frame(7, G->max_len + 1, junk(10)); break;
          case 3: s += frame(7, 0xffffffff - sim::choose(8), junk(10)); break;
          default: s += junk(1 + sim::choose(30));
        }
        break;
      default: {
        uint32_t len = sim::choose(6) == 5 ? G->max_len : sim::choose(3) ? sim::choose(30) : 0;
        uint32_t id = 1 + sim::choose(G->max_id < 60000 ? G->max_id : 60000);
        s += frame(id, len, junk((int)len));
      }
    }
  }
  if (sim::choose(3) == 2) s.resize(sim::choose((uint32_t)s.size() + 1));
  return s;
}
int raw_connect(uint16_t *port) {
  int fd = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons(7000);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (::connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof(a)) != 0) { ::close(fd); return -1; }
  socklen_t l = sizeof(a);
  ::getsockname(fd, reinterpret_cast<sockaddr *>(&a), &l);
  *port = ntohs(a.sin_port);
  return fd;
}
void drain(int fd) { char b[512]; while (::recv(fd, b, sizeof(b), MSG_DONTWAIT) > 0) {} }
bool ended(int fd) {
  char b[512];
  for (;;) {
    ssize_t n = ::recv(fd, b, sizeof(b), MSG_DONTWAIT);
    if (n > 0) continue;
    return n == 0 || errno != EAGAIN;
  }
}
void hostile(int rounds, bool trickle) {
  for (int k = 0; k < rounds; ++k) {
    std::string s;
    bool last = k == rounds - 1;
    if (trickle && !last) s = frame(5, 3, "xyz").substr(0, 5);
    else s = stream();
    if (trickle && last) s = frame(5, 3, "xyz") + frame(6, 0, "");
    uint16_t port;
    // The port is known only after connecting; the server may be faster.
    Ref ref = reference(s);
    int fd;
    {
      // the reference is in place before the first byte leaves
      fd = raw_connect(&port);
      SIM_CHECK(fd >= 0, "connect-failed", "a raw client could not connect");
      sim::NoPreempt g;
      G->peers[port].ref = ref;
      G->peers[port].hostile = true;
    }
    size_t i = 0;
    bool cut = false;
    int piece = trickle ? 1 : sim::choose(3) ? 0 : 1 + sim::choose(8);
    while (i < s.size()) {
      size_t n = piece ? std::min<size_t>(piece, s.size() - i) : s.size() - i;
      ssize_t r = ::send(fd, s.data() + i, n, MSG_NOSIGNAL);
      if (r <= 0) { cut = true; break; }
      i += (size_t)r;
      if (trickle) sim::sleep_ns(3 * kMs); else if (piece) maybe_pause(500);
    }
    int end = trickle ? (last ? 0 : 1) : sim::choose(4);
    if (cut) {
      SIM_CHECK(ref.invalid || ref.loose, "lost-connection", "a connection whose bytes are all valid was dropped (%zu bytes, %d pieces, trickle %d, round %d)", s.size(), piece, trickle, k);
    } else if (end < 2 || ref.invalid) {
      bool ok;
      if (ref.invalid && end != 1) {
        ok = patient([&] { return ended(fd); });
        SIM_CHECK(ok, "invalid-tolerated", "a connection that sent an invalid header is not dropped");
      }
      if (end == 0) {
        ok = patient([&] { drain(fd); return G->peers[port].got == ref.packets.size(); });
        if (!ok) sim::fail("packet-lost", "a peer's bytes mean %zu packets, %zu were dispatched", ref.packets.size(), G->peers[port].got);
        if (!ref.invalid && !ref.loose) {
          sim::sleep_ns(1000ull * sim::choose(2000));
          SIM_CHECK(!ended(fd), "lost-connection", "a connection whose bytes are all valid was dropped (%zu bytes, %d pieces, trickle %d, round %d)", s.size(), piece, trickle, k);
        }
      }
    }
    if (sim::choose(6) == 5) simnet::reset_fd(fd);
    ::close(fd);
    if (ref.loose) sim::probe("unsolicited_answer"); else if (ref.invalid) sim::probe("invalid_stream"); else sim::probe("valid_stream");
    if (sim::choose(2) || trickle) sim::wait_until([&] { return G->peers[port].down > 0; }, 100 * kMs);
    maybe_pause(1000);
  }
}
bool on_packet(Conn *c, const Packet &p) {
  Body b;
  if (sim::choose(10) == 9) maybe_pause(300);
  {
    sim::NoPreempt g;
    uint16_t port = G->port_of.count(c) ? G->port_of[c] : 0;
    auto it = G->peers.find(port);
    if (it != G->peers.end() && it->second.hostile) {
      Peer &q = it->second;
      auto d = p->data();
      std::string s(reinterpret_cast<const char *>(d.data()), d.size());
      if (q.got == q.ref.packets.size() && q.ref.loose) return true;
      SIM_CHECK(q.got < q.ref.packets.size(), "garbage-dispatched", "a peer's bytes mean %zu packets, another one is dispatched", q.ref.packets.size());
      auto &[id, body] = q.ref.packets[q.got];
      SIM_CHECK(body == s && (G->line || id == p->id()), "garbage-dispatched", "packet %zu of a peer is dispatched as id %d with %zu bytes instead of id %d with %zu", q.got, (int)p->id(), s.size(), id, body.size());
      ++q.got;
      return true;
    }
    SIM_CHECK(parse(p, b, G->line), "packet-altered", "a packet of the bystander is not what was sent");
  }
  c->send(make_packet({b.tag, 1, b.snd, b.no, b.len}, G->line));
  return true;
}
}  // namespace

SCENARIO_STEPS(net_garbage, 40000000) {
  auto wp = std::make_unique<GW>();
  GW &w = *wp;
  G = &w;
  auto &cfg = sim::config();
  cfg.p_stall /= 4;
  quiet_logs();
  net_weather(true);
  if (simnet::cfg().cap < 300) simnet::cfg().cap = 300;
  w.line = sim::choose(4) == 3;
  if (sim::choose(2)) w.max_len = 64 + sim::choose(400);
  if (sim::choose(3) == 2) w.max_id = 1000 + sim::choose(2000);
  net::setting_t st;
  st.address = "127.0.0.1:7000";
  st.name = "srv";
  st.mode = sim::choose(3) == 2 ? net::Mode::Select : net::Mode::Epoll;
  st.max_count = 40;
  st.default_count = 1 + sim::choose(3);
  st.packet_limit.max_id = w.max_id;
  st.packet_limit.max_length = w.max_len;
  auto lst = std::make_unique<net::Listener>(st, make_exec(sim::choose(4)));
  if (w.line) lst->set_codec({.encode = net::stream::line_encode, .decode = net::stream::line_decode});
  lst->set_dispatcher([](Conn *c, Packet p) { return on_packet(c, p); });
  lst->set_connect_callback([](Conn *c) { sim::NoPreempt g; uint16_t port = simnet::peer_port(c->socket()->id()); G->port_of[c] = port; ++G->peers[port].up; });
  lst->set_disconnect_callback([](Conn *c) { sim::NoPreempt g; ++G->peers[G->port_of[c]].down; });
  if (sim::choose(4)) {
    lst->bind("str", [](std::string s) { return s; });
    lst->bind("vec", [](std::vector<int32_t> v) { return (int32_t)v.size(); });
    lst->bind("map", [](std::map<std::string, int64_t> m) { return (int32_t)m.size(); });
    lst->bind("arr", [](std::array<uint16_t, 3> a, int32_t x) { return (int32_t)a[0] + x; });
    lst->bind("num", [](uint64_t a, double d, int32_t i, bool b) { return a + (uint64_t)i + (d > 0) + b; });
    lst->bind("bin", [](std::vector<uint8_t> v, std::string s) { return v; });
  }
  SIM_CHECK(lst->start(), "start-failed", "listener did not start");
  net::setting_t ct;
  ct.name = "cli";
  ct.mode = net::Mode::Epoll;
  ct.max_count = 2;
  ct.default_count = 1;
  auto con = std::make_unique<net::Connector>(ct, make_exec(0));
  if (w.line) con->set_codec({.encode = net::stream::line_encode, .decode = net::stream::line_decode});
  con->set_dispatcher([](Conn *, Packet p) {
    sim::NoPreempt g;
    Body b;
    SIM_CHECK(parse(p, b, G->line) && b.dir == 1, "packet-altered", "an answer to the bystander is not what was sent");
    SIM_CHECK(b.no == G->echoed[b.tag], "packet-order", "the bystander gets answer %u instead of %u", b.no, G->echoed[b.tag]);
    ++G->echoed[b.tag];
    return true;
  });
  con->set_disconnect_callback([](Conn *) { sim::NoPreempt g; SIM_CHECK(G->stopping, "lost-connection", "the bystander's connection was dropped"); });
  SIM_CHECK(con->start(), "start-failed", "connector did not start");
  int hostiles = 1 + sim::choose(3);
  bool trickle = !w.line && hostiles == 1 && sim::choose(4) == 3;
  ConnPtr by;
  {
    std::vector<std::unique_ptr<Thr>> ts;
    for (int i = 0; i < hostiles; ++i)
      ts.push_back(std::make_unique<Thr>([&] { hostile(trickle ? 24 : 1 + sim::choose(4), trickle); }));
    by = con->connect("127.0.0.1:7000", {}, ms(60000));
    SIM_CHECK(by != nullptr, "connect-failed", "the bystander could not connect");
    int n = 1 + sim::choose(8);
    for (uint32_t i = 0; i < (uint32_t)n; ++i) {
      SIM_CHECK(by->send(make_packet({1, 0, 0, i, (uint32_t)sim::choose(24)}, w.line)), "send-refused", "the bystander's packet was refused");
      if (sim::choose(2)) SIM_CHECK(patient([&] { return w.echoed[1] > i; }), "packet-lost", "the bystander's packet %u was not answered", i);
      maybe_pause(1500);
    }
    SIM_CHECK(patient([&] { return w.echoed[1] == (uint32_t)n; }), "packet-lost", "%u of the bystander's %d packets were answered", w.echoed[1], n);
  }
  bool ok = patient([&] { int u = 0, d = 0; for (auto &[p, q] : w.peers) { u += q.up; d += q.down; } return u == d + 1; });
  SIM_CHECK(ok, "ghost-connection", "connections of peers that are gone stay");
  for (auto &[p, q] : w.peers) SIM_CHECK(q.up <= 1 && q.down <= q.up, "callback-count", "a peer was announced %d times and ended %d times", q.up, q.down);
  w.stopping = true;
  if (sim::choose(2)) { con->stop(); lst->stop(); } else { lst->stop(); con->stop(); }
  by.reset();
  con.reset();
  lst.reset();
  SIM_CHECK(simnet::open_fds() == 0, "descriptor-leak", "%d descriptors are open at the end", simnet::open_fds());
}

// A connector whose server answers remote calls in any way.
namespace {
struct HW {
  std::map<int32_t, int> good, bad;    // answers sent per call
  bool quit = false;
};
HW *H;
std::string answer(uint32_t index, uint32_t error, const std::string &v) { std::string s; be(s, index, 4); be(s, error, 4); s += v; return frame(65533, (uint32_t)s.size(), s); }
bool send_all(int fd, const std::string &s) {
  size_t i = 0;
  while (i < s.size()) {
    ssize_t r = ::send(fd, s.data() + i, s.size() - i, MSG_NOSIGNAL);
    if (r <= 0) return false;
    i += (size_t)r;
  }
  return true;
}
void bad_server(int lfd) {
  int fd = ::accept(lfd, nullptr, nullptr);
  if (fd < 0) return;
  std::string in;
  int kind = sim::choose(5), left = 1 + sim::choose(10);
  for (;;) {
    char b[300];
    ssize_t n = ::recv(fd, b, sizeof(b), 0);
    if (n <= 0) break;
    in.append(b, (size_t)n);
    while (in.size() >= 6) {
      size_t len = (uint8_t)in[4] << 8 | (uint8_t)in[5];
      if (in.size() < 6 + len) break;
      std::string f = in.substr(6, len);
      in.erase(0, 6 + len);
      SIM_CHECK(f.size() >= 9 && f[f.size() - 5] == 5, "argument-altered", "a request of %zu bytes is not what was called", f.size());
      uint32_t index = 0, v = 0;
      for (int i = 0; i < 4; ++i) { index = index << 8 | (uint8_t)f[i]; v = v << 8 | (uint8_t)f[f.size() - 4 + i]; }
      std::string val(1, (char)5);
      be(val, v + 1000, 4);
      std::string out;
      bool good = kind == 0 || sim::choose(3);
      {
        sim::NoPreempt g;
        if (kind == 4 && !good) {          // answers nobody asked for, nothing else
          if (sim::choose(3) == 2) { ++H->good[(int32_t)v]; out = answer(index, 0, val) + answer(index, 0, val); }
          else out = answer(index + 1000 + (uint32_t)sim::choose(5), 0, val);
        } else if (good) { ++H->good[(int32_t)v]; out = answer(index, 0, val); }
        else {
          ++H->bad[(int32_t)v];
          switch (sim::choose(8)) {
            case 0: out = answer(index, 0, val) + answer(index, 0, val); break;         // twice
            case 1: out = answer(index + 1000, 0, val); break;                          // nobody's
            case 2: out = answer(index, sim::choose(1000), val); break;
            case 3: out = answer(index, 0, val.substr(0, sim::choose(5))); break;       // truncated
            case 4: out = answer(index, 0, bad_args()); break;
            case 5: out = frame(0, 4, "abcd"); break;
            case 6: out = frame(65533, sim::choose(8), junk(7)); break;
            default: out = junk(1 + sim::choose(20)); break;
          }
        }
      }
      if (!send_all(fd, out)) { ::close(fd); return; }
      if (kind == 2 && --left == 0) { ::close(fd); return; }
      maybe_pause(500);
    }
  }
  ::close(fd);
}
}  // namespace

SCENARIO_STEPS(net_badsrv, 40000000) {
  auto wp = std::make_unique<HW>();
  auto gp = std::make_unique<GW>();
  HW &w = *wp;
  H = &w;
  G = gp.get();
  sim::config().p_stall /= 4;
  quiet_logs();
  net_weather(true);
  if (simnet::cfg().cap < 300) simnet::cfg().cap = 300;
  int lfd = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons(7000);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  ::bind(lfd, reinterpret_cast<sockaddr *>(&a), sizeof(a));
  ::listen(lfd, 5);
  net::setting_t ct;
  ct.name = "cli";
  ct.mode = sim::choose(3) == 2 ? net::Mode::Select : net::Mode::Epoll;
  ct.max_count = 3;
  ct.default_count = 1;
  auto con = std::make_unique<net::Connector>(ct, make_exec(sim::choose(4)));
  SIM_CHECK(con->start(), "start-failed", "connector did not start");
  int rounds = 1 + sim::choose(3);
  int32_t next = 100000;
  for (int k = 0; k < rounds; ++k) {
    Thr srv([&] { bad_server(lfd); });
    ConnPtr c = con->connect("127.0.0.1:7000", {}, ms(60000));
    SIM_CHECK(c != nullptr, "connect-failed", "could not connect");
    std::vector<std::pair<int32_t, std::future<net::rpc::Unpacker>>> open;
    {
      std::vector<std::unique_ptr<Thr>> ts;
      for (int t = 0; t < 2; ++t)
        ts.push_back(std::make_unique<Thr>([&] {
          int n = 1 + sim::choose(5);
          for (int i = 0; i < n; ++i) {
            int32_t v;
            { sim::NoPreempt g; v = next++; }
            auto f = c->async_call("add", v);
            { sim::NoPreempt g; open.emplace_back(v, std::move(f)); }
            maybe_pause(400);
          }
        }));
    }
    auto done = [&] { for (auto &[v, f] : open) if (f.wait_for(ms(0)) != std::future_status::ready) return false; return true; };
    sim::wait_until(done, 200 * kMs, kMs);
    if (sim::choose(2)) maybe_pause(2000);
    c->shutdown();
    SIM_CHECK(patient(done), "call-never-settles", "a call on a connection that ended is neither answered nor failed");
    for (auto &[v, f] : open) {
      int g, b;
      try {
        auto u = f.get();
        { sim::NoPreempt np; g = w.good[v]; b = w.bad[v]; }
        bool bads = false;
        { sim::NoPreempt np; for (auto &[n, x] : w.bad) bads |= x > 0; }
        SIM_CHECK(g || bads, "answer-from-nowhere", "call %d was answered but the server sent no answer", v);
        // what an answer holds can be asked for as anything
        switch (sim::choose(5)) {
          case 0: { auto p = std::make_unique<std::array<uint16_t, 2>>(); u.process(*p); break; }
          case 1: (void)u.as<std::string>(); break;
          case 2: (void)u.as<std::map<std::string, int64_t>>(); break;
          case 3: (void)u.as<std::vector<std::string>>(); break;
          default: {
            auto r = u.as<int32_t>();
            if (!bads) SIM_CHECK(r == v + 1000, "wrong-answer", "call %d got %d", v, r);
          }
        }
        (void)b;
      } catch (const std::exception &) {}
    }
    srv.join();
    if (sim::choose(2)) maybe_pause(3000);
  }
  con->stop();
  con.reset();
  ::close(lfd);
  SIM_CHECK(simnet::open_fds() == 0, "descriptor-leak", "%d descriptors are open at the end", simnet::open_fds());
}
