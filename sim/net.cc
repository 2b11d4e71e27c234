// See net.h.  Interposes the socket system calls for simulated descriptors
// (kBase..kBase+kMax); every other descriptor goes to the kernel.
#include "net.h"
#include "sim.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <string>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace {
constexpr int kBase = 100, kMax = 800;
using sim::NoPreempt;

struct Pipe {              // one direction
  std::string buf;         // arrived, unread
  size_t inflight = 0;
  uint64_t last = 0;       // arrival time of the newest segment
  bool fin_sent = false, fin = false;
  bool reader_gone = false;
  bool cut = false;        // segments still in flight are lost
};
struct Sock;
struct Conn {
  Pipe p[2];               // p[s] is read by side s
  std::weak_ptr<Sock> s[2];
};
struct Item;
enum Kind { K_NEW, K_CONNECTING, K_CONN, K_LISTEN, K_SEQ, K_EPOLL, K_DEAD };
struct Sock : std::enable_shared_from_this<Sock> {
  Kind kind = K_NEW;
  int fd = -1;
  bool nonblock = false, shut_rd = false, shut_wr = false, rst = false;
  int err = 0, again = 0;
  uint16_t port = 0, peer_port = 0;
  uint32_t addr = 0;
  // stream
  std::shared_ptr<Conn> conn;
  int side = 0;
  // listener
  std::deque<std::shared_ptr<Sock>> backlog;
  size_t backlog_max = 0;
  // seqpacket
  std::deque<std::string> msgs;
  std::weak_ptr<Sock> mate;
  bool mate_closed = false;
  // epoll
  std::vector<std::shared_ptr<Item>> items;
  std::deque<std::weak_ptr<Item>> ready;
  // watchers
  std::vector<std::weak_ptr<Item>> watchers;
};
struct Item {
  std::weak_ptr<Sock> ep, sock;
  int fd = -1;
  epoll_event ev{};
  bool queued = false, dead = false;
};
struct World {
  simnet::Cfg cfg;
  std::shared_ptr<Sock> fds[kMax];
  std::map<uint16_t, std::weak_ptr<Sock>> listeners;
  uint16_t next_port = 40000;
  uint64_t made = 0;
  int any_key = 0;          // select() and blocking calls wait here
};
World *W;

bool simfd(int fd) { return W && fd >= kBase && fd < kBase + kMax; }
std::shared_ptr<Sock> get(int fd) { return simfd(fd) ? W->fds[fd - kBase] : nullptr; }
int install(std::shared_ptr<Sock> s) {
  for (int i = 0; i < kMax; ++i)
    if (!W->fds[i]) { W->fds[i] = s; s->fd = kBase + i; return s->fd; }
  errno = EMFILE;
  return -1;
}
int fail_with(int e) { errno = e; return -1; }

uint32_t mask_of(Sock &s) {
  uint32_t m = 0;
  switch (s.kind) {
    case K_NEW: return EPOLLOUT | EPOLLHUP;
    case K_CONNECTING: return 0;
    case K_LISTEN: return s.backlog.empty() ? 0 : EPOLLIN;
    case K_SEQ: if (!s.msgs.empty() || s.mate_closed) m |= EPOLLIN; return m | EPOLLOUT;
    case K_DEAD: return EPOLLIN | EPOLLOUT | EPOLLHUP | (s.err ? EPOLLERR : 0);
    case K_CONN: {
      Pipe &in = s.conn->p[s.side], &out = s.conn->p[1 - s.side];
      if (!in.buf.empty() || in.fin || s.shut_rd || s.rst) m |= EPOLLIN;
      if (in.fin || s.shut_rd) m |= EPOLLRDHUP;
      if (s.rst || (out.buf.size() + out.inflight) < W->cfg.cap) m |= EPOLLOUT;
      if (s.err) m |= EPOLLERR;
      if (s.rst || ((in.fin || s.shut_rd) && s.shut_wr)) m |= EPOLLHUP;
      return m;
    }
    default: return 0;
  }
}
void queue_item(const std::shared_ptr<Item> &it) {
  auto ep = it->ep.lock();
  if (!ep || it->dead) return;
  if (!it->queued) { it->queued = true; ep->ready.push_back(it); }
  sim::wake(ep.get());
}
// `out` only: writability changed
void notify(Sock &s, bool out = false) {
  for (auto &w : s.watchers)
    if (auto it = w.lock())
      if (!out || (it->ev.events & EPOLLOUT)) queue_item(it);
  sim::wake(&s);
  sim::wake(&W->any_key);
}

void arrive_rst(const std::shared_ptr<Conn> &c, int side) {
  auto s = c->s[side].lock();
  if (!s || s->rst) return;
  s->rst = true;
  s->err = ECONNRESET;
  c->p[side].cut = true;
  notify(*s);
}
uint64_t arrival(Pipe &p) {
  uint64_t d = 1000ull * (5 + sim::choose(W->cfg.delay_us + 1));
  uint64_t t = std::max(sim::now() + d, W->cfg.hold_until);
  t = std::max(t, p.last + 1);
  p.last = t;
  return t;
}
void send_rst(const std::shared_ptr<Conn> &c, int to, bool cut) {
  if (cut) c->p[to].cut = true;
  uint64_t t = arrival(c->p[to]);
  sim::count_fault(sim::F_NET_RESET);
  sim::at(t, [c, to] { arrive_rst(c, to); });
}
void send_fin(const std::shared_ptr<Conn> &c, int to) {
  Pipe &p = c->p[to];
  if (p.fin_sent) return;
  p.fin_sent = true;
  sim::at(arrival(p), [c, to] {
    c->p[to].fin = true;
    if (auto s = c->s[to].lock()) notify(*s);
  });
}
void send_segment(const std::shared_ptr<Conn> &c, int to, std::string data) {
  Pipe &p = c->p[to];
  p.inflight += data.size();
  uint64_t t = arrival(p);
  sim::at(t, [c, to, d = std::move(data)] {
    Pipe &q = c->p[to];
    q.inflight -= d.size();
    if (q.cut) return;
    if (q.reader_gone) { send_rst(c, 1 - to, false); return; }
    q.buf += d;
    if (auto s = c->s[to].lock()) notify(*s);
  });
}
void write_out(const std::shared_ptr<Conn> &c, int to, const char *b, size_t n) {
  auto &f = W->cfg;
  size_t i = 0;
  while (i < n) {
    size_t k = n - i;
    if (f.p_split && k > 1 && sim::fault(sim::F_NET_SPLIT, f.p_split)) {
      size_t lim = f.max_seg ? std::min<size_t>(k, f.max_seg) : k;
      k = 1 + sim::choose((uint32_t)lim);
      if (k > n - i) k = n - i;
    }
    send_segment(c, to, std::string(b + i, k));
    i += k;
  }
}
void close_conn_side(Sock &s) {
  auto c = s.conn;
  Pipe &in = c->p[s.side];
  in.reader_gone = true;
  if (s.rst) return;
  if (!in.buf.empty()) {
    in.buf.clear();
    send_rst(c, 1 - s.side, sim::choose(2) == 1);
  } else send_fin(c, 1 - s.side);
  s.shut_wr = s.shut_rd = true;
}

std::shared_ptr<Sock> find_listener(uint16_t port) {
  auto it = W->listeners.find(port);
  if (it == W->listeners.end()) return nullptr;
  return it->second.lock();
}
void try_establish(std::weak_ptr<Sock> wc, uint16_t port, int tries) {
  auto c = wc.lock();
  if (!c || c->kind != K_CONNECTING) return;
  auto l = find_listener(port);
  if (!l || l->kind != K_LISTEN) {
    c->kind = K_DEAD;
    c->err = ECONNREFUSED;
    sim::count_fault(sim::F_NET_CONNREFUSED);
    notify(*c);
    return;
  }
  if (l->backlog.size() > l->backlog_max) {   // SYN dropped, sent again later
    if (tries > 6) { c->kind = K_DEAD; c->err = ETIMEDOUT; notify(*c); return; }
    sim::at(sim::now() + (1000000000ull << tries), [wc, port, tries] { try_establish(wc, port, tries + 1); });
    return;
  }
  auto s = std::make_shared<Sock>();
  s->kind = c->kind = K_CONN;
  s->conn = c->conn = std::make_shared<Conn>();
  s->side = 1; c->side = 0;
  s->conn->s[0] = c; s->conn->s[1] = s;
  s->port = port; s->peer_port = c->port;
  c->peer_port = port;
  ++W->made;
  l->backlog.push_back(s);
  notify(*l);
  notify(*c);
}
void do_close(const std::shared_ptr<Sock> &s) {
  for (auto &w : s->watchers)
    if (auto it = w.lock()) {
      it->dead = true;
      if (auto ep = it->ep.lock()) std::erase(ep->items, it);
    }
  s->watchers.clear();
  switch (s->kind) {
    case K_CONN: close_conn_side(*s); break;
    case K_LISTEN:
      W->listeners.erase(s->port);
      for (auto &b : s->backlog) { b->conn->p[b->side].reader_gone = true; send_rst(b->conn, 0, false); }
      s->backlog.clear();
      break;
    case K_SEQ: if (auto m = s->mate.lock()) { m->mate_closed = true; notify(*m); } break;
    default: break;
  }
  s->kind = s->kind == K_CONN ? K_CONN : K_DEAD;
  sim::wake(&W->any_key);
  sim::wake(s.get());
}
void set_addr(sockaddr *a, socklen_t *len, uint16_t port, uint32_t ip) {
  if (!a || !len) return;
  sockaddr_in in{};
  in.sin_family = AF_INET;
  in.sin_port = htons(port);
  in.sin_addr.s_addr = ip ? ip : htonl(INADDR_LOOPBACK);
  memcpy(a, &in, std::min<size_t>(*len, sizeof(in)));
  *len = sizeof(in);
}
uint16_t port_of(const sockaddr *a, socklen_t len) {
  if (a->sa_family == AF_INET && len >= sizeof(sockaddr_in)) return ntohs(reinterpret_cast<const sockaddr_in *>(a)->sin_port);
  if (a->sa_family == AF_INET6 && len >= sizeof(sockaddr_in6)) return ntohs(reinterpret_cast<const sockaddr_in6 *>(a)->sin6_port);
  return 0;
}
}  // namespace

namespace simnet {
Cfg &cfg() { return W->cfg; }
void dump() {
  for (int i = 0; i < kMax; ++i)
    if (auto s = W->fds[i]) {
      if (s->kind != K_CONN) { sim::event("fd %d kind %d", s->fd, s->kind); continue; }
      Pipe &in = s->conn->p[s->side];
      sim::event("fd %d conn in=%zu flight=%zu fin=%d rst=%d err=%d again=%d watchers=%zu", s->fd, in.buf.size(), in.inflight, in.fin, s->rst, s->err, s->again, s->watchers.size());
    }
}
uint16_t peer_port(int fd) { auto s = get(fd); return s ? s->peer_port : 0; }
bool established(int fd) { auto s = get(fd); return s && s->conn; }
int open_fds() { int n = 0; for (auto &f : W->fds) n += f != nullptr; return n; }
bool is_open(int fd) { return get(fd) != nullptr; }
void reset_fd(int fd) {
  NoPreempt g;
  auto s = get(fd);
  if (!s || s->kind != K_CONN || s->rst) return;
  auto c = s->conn;
  c->p[0].cut = c->p[1].cut = true;
  sim::count_fault(sim::F_NET_RESET);
  arrive_rst(c, s->side);
  uint64_t t = arrival(c->p[1 - s->side]);
  int o = 1 - s->side;
  sim::at(t, [c, o] { arrive_rst(c, o); });
}
size_t pending_in(int fd) { auto s = get(fd); return s && s->kind == K_CONN ? s->conn->p[s->side].buf.size() : 0; }
uint64_t conns_made() { return W->made; }
}
namespace sim { void net_reset() { W = new World; } }

#define PASS(...) do { long r_ = syscall(__VA_ARGS__); return (int)r_; } while (0)
#define ENTER() sim::sync_point(); NoPreempt guard_

extern "C" {
int socket(int domain, int type, int proto) noexcept {
  if (!sim::active()) PASS(SYS_socket, domain, type, proto);
  ENTER();
  auto s = std::make_shared<Sock>();
  s->nonblock = type & SOCK_NONBLOCK;
  return install(s);
}
int socketpair(int domain, int type, int proto, int fds[2]) noexcept {
  if (!sim::active()) PASS(SYS_socketpair, domain, type, proto, fds);
  ENTER();
  auto a = std::make_shared<Sock>(), b = std::make_shared<Sock>();
  a->kind = b->kind = K_SEQ;
  a->mate = b; b->mate = a;
  fds[0] = install(a);
  fds[1] = install(b);
  return fds[1] < 0 ? -1 : 0;
}
int bind(int fd, const sockaddr *a, socklen_t len) noexcept {
  if (!simfd(fd)) PASS(SYS_bind, fd, a, len);
  ENTER();
  auto s = get(fd);
  if (!s) return fail_with(EBADF);
  uint16_t p = port_of(a, len);
  if (p && find_listener(p)) return fail_with(EADDRINUSE);
  s->port = p ? p : W->next_port++;
  return 0;
}
int listen(int fd, int backlog) noexcept {
  if (!simfd(fd)) PASS(SYS_listen, fd, backlog);
  ENTER();
  auto s = get(fd);
  if (!s) return fail_with(EBADF);
  if (!s->port) s->port = W->next_port++;
  if (find_listener(s->port)) return fail_with(EADDRINUSE);
  s->kind = K_LISTEN;
  s->backlog_max = backlog < 1 ? 1 : backlog;
  W->listeners[s->port] = s;
  return 0;
}
int accept(int fd, sockaddr *a, socklen_t *len) {
  if (!simfd(fd)) PASS(SYS_accept, fd, a, len);
  ENTER();
  auto s = get(fd);
  if (!s) return fail_with(EBADF);
  if (s->kind != K_LISTEN) return fail_with(EINVAL);
  while (s->backlog.empty()) {
    if (s->nonblock) return fail_with(EAGAIN);
    sim::block_on(s.get(), ~0ull);
    if (s->kind != K_LISTEN) return fail_with(EINVAL);
  }
  if (sim::fault(sim::F_NET_ACCEPT_ERR, W->cfg.p_accept)) return fail_with(EMFILE);
  auto c = s->backlog.front();
  s->backlog.pop_front();
  int r = install(c);
  set_addr(a, len, c->peer_port, 0);
  sim::event("accept fd %d", r);
  return r;
}
int connect(int fd, const sockaddr *a, socklen_t len) {
  if (!simfd(fd)) PASS(SYS_connect, fd, a, len);
  ENTER();
  auto s = get(fd);
  if (!s) return fail_with(EBADF);
  if (s->kind == K_CONN) return fail_with(EISCONN);
  if (s->kind == K_CONNECTING) return fail_with(EALREADY);
  s->kind = K_CONNECTING;
  s->err = 0;
  if (!s->port) s->port = W->next_port++;
  uint16_t port = port_of(a, len);
  s->peer_port = port;
  sim::event("connect fd %d to %d", fd, port);
  std::weak_ptr<Sock> w = s;
  if (!sim::fault(sim::F_NET_CONNDELAY, W->cfg.p_conn_lost)) {
    uint64_t t = sim::now() + 1000ull * (10 + sim::choose(W->cfg.conn_delay_us + 1));
    t = std::max(t, W->cfg.hold_until);
    sim::at(t, [w, port] { try_establish(w, port, 0); });
  }
  if (s->nonblock) return fail_with(EINPROGRESS);
  while (s->kind == K_CONNECTING) sim::block_on(s.get(), ~0ull);
  if (s->kind == K_CONN) return 0;
  int e = s->err;
  s->err = 0;
  return fail_with(e ? e : ECONNREFUSED);
}
// SIM_BYTES=1 shows what is sent and received; the schedule stays the same.
static void show(const char *what, int fd, const void *b, size_t n) {
  static const bool on = getenv("SIM_BYTES") != nullptr;
  if (!on) return;
  fprintf(stderr, "  %s fd %d:", what, fd);
  for (size_t i = 0; i < n; ++i) fprintf(stderr, "%02x", static_cast<const uint8_t *>(b)[i]);
  fprintf(stderr, "\n");
}
ssize_t send(int fd, const void *b, size_t n, int flags) {
  if (!simfd(fd)) return syscall(SYS_sendto, fd, b, n, flags, nullptr, 0);
  ENTER();
  auto s = get(fd);
  if (!s) return fail_with(EBADF);
  if (s->kind == K_SEQ) {
    auto m = s->mate.lock();
    if (!m || s->mate_closed) return fail_with(EPIPE);
    m->msgs.emplace_back(static_cast<const char *>(b), n);
    notify(*m);
    return (ssize_t)n;
  }
  if (s->kind != K_CONN) return fail_with(s->kind == K_CONNECTING ? EAGAIN : ENOTCONN);
  auto &f = W->cfg;
  for (;;) {
    if (s->err) { int e = s->err; s->err = 0; return fail_with(e); }
    if (s->shut_wr || s->rst) return fail_with(EPIPE);
    if (n == 0) return 0;
    Pipe &out = s->conn->p[1 - s->side];
    size_t used = out.buf.size() + out.inflight;
    size_t space = used < f.cap ? f.cap - used : 0;
    if (space && s->nonblock && f.p_again && sim::fault(sim::F_NET_EAGAIN, f.p_again)) space = 0;
    if (!space) {
      if (s->nonblock || (flags & MSG_DONTWAIT)) {
        // a caller that polls a full socket is slowed down more and more, as a
        // busy machine would: keeps spinning senders within the step budget
        if (++s->again > 2) sim::block_on(&s->again, sim::now() + (1000ull << std::min(s->again, 13)));
        return fail_with(EAGAIN);
      }
      sim::block_on(s.get(), ~0ull);
      continue;
    }
    s->again = 0;
    size_t k = std::min(n, space);
    if (k > 1 && f.p_short && sim::fault(sim::F_NET_SHORT_WRITE, f.p_short)) k = 1 + sim::choose((uint32_t)(k - 1));
    if (out.reader_gone) send_rst(s->conn, s->side, false);
    else write_out(s->conn, 1 - s->side, static_cast<const char *>(b), k);
    show("send", fd, b, k);
    return (ssize_t)k;
  }
}
ssize_t recv(int fd, void *b, size_t n, int flags) {
  if (!simfd(fd)) return syscall(SYS_recvfrom, fd, b, n, flags, nullptr, nullptr);
  ENTER();
  auto s = get(fd);
  if (!s) return fail_with(EBADF);
  if (s->kind == K_SEQ) {
    while (s->msgs.empty()) {
      if (s->mate_closed) return 0;
      if (s->nonblock) return fail_with(EAGAIN);
      sim::block_on(s.get(), ~0ull);
    }
    auto m = s->msgs.front();
    s->msgs.pop_front();
    size_t k = std::min(n, m.size());
    memcpy(b, m.data(), k);
    return (ssize_t)k;
  }
  if (s->kind != K_CONN) return fail_with(ENOTCONN);
  for (;;) {
    Pipe &in = s->conn->p[s->side];
    if (!in.buf.empty()) {
      size_t k = std::min(n, in.buf.size());
      memcpy(b, in.buf.data(), k);
      show("recv", fd, b, k);
      if (!(flags & MSG_PEEK)) {
        in.buf.erase(0, k);
        if (auto o = s->conn->s[1 - s->side].lock()) notify(*o, true);
      }
      return (ssize_t)k;
    }
    if (s->err) { int e = s->err; s->err = 0; return fail_with(e); }
    if (s->rst || in.fin || s->shut_rd) return 0;
    if (n == 0) return 0;
    if (s->nonblock || (flags & MSG_DONTWAIT)) return fail_with(EAGAIN);
    sim::block_on(s.get(), ~0ull);
    if (in.reader_gone) return fail_with(EBADF);
  }
}
int shutdown(int fd, int how) noexcept {
  if (!simfd(fd)) PASS(SYS_shutdown, fd, how);
  ENTER();
  auto s = get(fd);
  if (!s) return fail_with(EBADF);
  if (s->kind != K_CONN || s->rst) return fail_with(ENOTCONN);
  if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
  if ((how == SHUT_WR || how == SHUT_RDWR) && !s->shut_wr) { s->shut_wr = true; send_fin(s->conn, 1 - s->side); }
  notify(*s);
  return 0;
}
int close(int fd) {
  if (!simfd(fd)) PASS(SYS_close, fd);
  ENTER();
  auto s = get(fd);
  if (!s) return fail_with(EBADF);
  W->fds[fd - kBase] = nullptr;
  do_close(s);
  sim::event("close fd %d", fd);
  return 0;
}
int getsockopt(int fd, int level, int name, void *v, socklen_t *len) noexcept {
  if (!simfd(fd)) PASS(SYS_getsockopt, fd, level, name, v, len);
  ENTER();
  auto s = get(fd);
  if (!s) return fail_with(EBADF);
  memset(v, 0, *len);
  if (level == SOL_SOCKET && name == SO_ERROR) {
    int e = s->err;
    s->err = 0;
    memcpy(v, &e, std::min<size_t>(*len, sizeof(e)));
  } else if (level == SOL_SOCKET && (name == SO_RCVBUF || name == SO_SNDBUF)) {
    int e = (int)W->cfg.cap;
    memcpy(v, &e, std::min<size_t>(*len, sizeof(e)));
  }
  return 0;
}
int setsockopt(int fd, int level, int name, const void *v, socklen_t len) noexcept {
  if (!simfd(fd)) PASS(SYS_setsockopt, fd, level, name, v, len);
  ENTER();
  return get(fd) ? 0 : fail_with(EBADF);
}
int getsockname(int fd, sockaddr *a, socklen_t *len) noexcept {
  if (!simfd(fd)) PASS(SYS_getsockname, fd, a, len);
  ENTER();
  auto s = get(fd);
  if (!s) return fail_with(EBADF);
  set_addr(a, len, s->port, 0);
  return 0;
}
int getpeername(int fd, sockaddr *a, socklen_t *len) noexcept {
  if (!simfd(fd)) PASS(SYS_getpeername, fd, a, len);
  ENTER();
  auto s = get(fd);
  if (!s) return fail_with(EBADF);
  if (s->kind != K_CONN || s->rst) return fail_with(ENOTCONN);
  set_addr(a, len, s->peer_port, 0);
  return 0;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (!simfd(fd)) PASS(SYS_fcntl, fd, cmd, arg);
  ENTER();
  auto s = get(fd);
  if (!s) return fail_with(EBADF);
  if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; }
  return 0;
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap;
  va_start(ap, req);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (!simfd(fd)) PASS(SYS_ioctl, fd, req, arg);
  ENTER();
  auto s = get(fd);
  if (!s) return fail_with(EBADF);
  if (req == FIONREAD) {
    if (s->kind == K_LISTEN) return fail_with(EINVAL);
    *static_cast<int *>(arg) = s->kind == K_CONN ? (int)s->conn->p[s->side].buf.size() : s->kind == K_SEQ && !s->msgs.empty() ? (int)s->msgs.front().size() : 0;
    return 0;
  }
  if (req == FIONBIO) { s->nonblock = *static_cast<int *>(arg) != 0; return 0; }
  return fail_with(EINVAL);
}
int epoll_create(int n) noexcept {
  if (!sim::active()) PASS(SYS_epoll_create1, 0);
  ENTER();
  if (n <= 0) return fail_with(EINVAL);
  auto s = std::make_shared<Sock>();
  s->kind = K_EPOLL;
  return install(s);
}
int epoll_create1(int fl) noexcept {
  if (!sim::active()) PASS(SYS_epoll_create1, fl);
  return epoll_create(1);
}
int epoll_ctl(int efd, int op, int fd, epoll_event *ev) noexcept {
  if (!simfd(efd)) PASS(SYS_epoll_ctl, efd, op, fd, ev);
  ENTER();
  auto ep = get(efd);
  auto s = get(fd);
  if (!ep || !s) return fail_with(EBADF);
  if (ep->kind != K_EPOLL) return fail_with(EINVAL);
  std::shared_ptr<Item> it;
  for (auto &i : ep->items) if (i->fd == fd && !i->dead) it = i;
  if (op == EPOLL_CTL_ADD) {
    if (it) return fail_with(EEXIST);
    it = std::make_shared<Item>();
    it->ep = ep; it->sock = s; it->fd = fd; it->ev = *ev;
    ep->items.push_back(it);
    s->watchers.push_back(it);
    if (mask_of(*s) & (ev->events | EPOLLERR | EPOLLHUP)) queue_item(it);
    return 0;
  }
  if (!it) return fail_with(ENOENT);
  if (op == EPOLL_CTL_DEL) {
    it->dead = true;
    std::erase(ep->items, it);
    return 0;
  }
  it->ev = *ev;
  if (mask_of(*s) & (ev->events | EPOLLERR | EPOLLHUP)) queue_item(it);
  return 0;
}
int epoll_wait(int efd, epoll_event *evs, int max, int timeout) {
  if (!simfd(efd)) PASS(SYS_epoll_wait, efd, evs, max, timeout);
  ENTER();
  auto ep = get(efd);
  if (!ep || ep->kind != K_EPOLL) return fail_with(EBADF);
  uint64_t end = timeout < 0 ? ~0ull : sim::now() + 1000000ull * timeout;
  for (;;) {
    int n = 0;
    size_t q = ep->ready.size();
    for (size_t k = 0; k < q && n < max; ++k) {
      auto it = ep->ready.front().lock();
      ep->ready.pop_front();
      if (!it) continue;
      it->queued = false;
      if (it->dead) continue;
      auto s = it->sock.lock();
      if (!s) continue;
      uint32_t m = mask_of(*s) & (it->ev.events | EPOLLERR | EPOLLHUP);
      if (!m) continue;
      evs[n].events = m;
      evs[n].data = it->ev.data;
      ++n;
      if (!(it->ev.events & EPOLLET)) { it->queued = true; ep->ready.push_back(it); }
    }
    if (n) return n;
    if (timeout == 0 || sim::now() >= end) return 0;
    if (sim::fault(sim::F_EPOLL_EINTR, W->cfg.p_eintr)) return fail_with(EINTR);
    sim::block_on(ep.get(), end);
    if (ep->kind != K_EPOLL) return fail_with(EBADF);
  }
}
int epoll_pwait(int efd, epoll_event *evs, int max, int timeout, const sigset_t *) { return epoll_wait(efd, evs, max, timeout); }

int select(int nfds, fd_set *r, fd_set *w, fd_set *x, timeval *tv) {
  if (!sim::active()) PASS(SYS_select, nfds, r, w, x, tv);
  ENTER();
  uint64_t t0 = sim::now();
  uint64_t end = tv ? t0 + 1000000000ull * tv->tv_sec + 1000ull * tv->tv_usec : ~0ull;
  fd_set ri, wi, xi;
  FD_ZERO(&ri); FD_ZERO(&wi); FD_ZERO(&xi);
  if (r) ri = *r;
  if (w) wi = *w;
  if (x) xi = *x;
  std::vector<std::pair<int, std::shared_ptr<Sock>>> fds;
  for (int i = 0; i < nfds && i < FD_SETSIZE; ++i)
    if ((r && FD_ISSET(i, &ri)) || (w && FD_ISSET(i, &wi)) || (x && FD_ISSET(i, &xi))) {
      auto s = get(i);
      if (!s) return fail_with(EBADF);
      fds.emplace_back(i, s);
    }
  auto done = [&](int n) {
    if (tv) {
      uint64_t left = end > sim::now() ? end - sim::now() : 0;
      tv->tv_sec = left / 1000000000ull;
      tv->tv_usec = left % 1000000000ull / 1000;
    }
    return n;
  };
  for (;;) {
    int n = 0;
    fd_set ro, wo, xo;
    FD_ZERO(&ro); FD_ZERO(&wo); FD_ZERO(&xo);
    for (auto &[fd, s] : fds) {
      uint32_t m = mask_of(*s);
      if (r && FD_ISSET(fd, &ri) && (m & (EPOLLIN | EPOLLERR | EPOLLHUP))) { FD_SET(fd, &ro); ++n; }
      if (w && FD_ISSET(fd, &wi) && (m & (EPOLLOUT | EPOLLERR))) { FD_SET(fd, &wo); ++n; }
    }
    if (n || (tv && sim::now() >= end)) {
      if (r) *r = ro;
      if (w) *w = wo;
      if (x) *x = xo;
      return done(n);
    }
    if (sim::fault(sim::F_EPOLL_EINTR, W->cfg.p_eintr)) { done(0); return fail_with(EINTR); }
    sim::block_on(&W->any_key, end);
  }
}
}
