// Shared pieces of the network scenarios.
#pragma once
#include "common.h"
#include "../sim/net.h"
#include "plain/basic/logger.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/net/connection/basic.h"
#include "plain/net/connector.h"
#include "plain/net/listener.h"
#include "plain/net/packet/basic.h"
#include "plain/net/socket/basic.h"
#include "plain/net/stream/codec.h"

namespace netc {
using namespace scen;
using Conn = plain::net::connection::Basic;
using ConnPtr = std::shared_ptr<Conn>;
using Packet = std::shared_ptr<plain::net::packet::Basic>;
namespace net = plain::net;

inline void quiet_logs() {
  // SIM_LOGS=1 shows what the library says; the schedule stays the same.
  static const bool show = getenv("SIM_LOGS") != nullptr;
  plain::Logger::set_output([](const std::string_view &s) { if (show) fprintf(stderr, "LOG %.*s", (int)s.size(), s.data()); });
  plain::Logger::set_flush([] {});
}

inline void net_weather(bool harsh) {
  auto &c = simnet::cfg();
  static const uint32_t delays[] = {20, 0, 200, 2000};
  c.delay_us = delays[sim::choose(4)];
  c.conn_delay_us = sim::choose(2) ? 2000 : 30;
  if (!harsh) return;
  if (sim::choose(2)) { c.p_split = sim::choose(2) ? 800 : 300; c.max_seg = sim::choose(2) ? 12 : 0; }
  static const uint32_t caps[] = {65536, 4096, 300, 40};
  c.cap = caps[sim::choose(4)];
  if (c.cap <= 300 && c.delay_us > 200) c.delay_us = 200;
  if (sim::choose(3) == 2) c.p_short = 300;
  if (sim::choose(3) == 2) c.p_again = 200;
  if (sim::choose(3) == 2) c.p_eintr = 100;
  if (sim::choose(4) == 3) c.p_accept = 300;
}

inline std::shared_ptr<plain::concurrency::executor::Basic> make_exec(int kind) {
  using namespace plain::concurrency;
  switch (kind) {
    case 1: return std::make_shared<executor::ThreadPool>("np1", 1, ms(60000));
    case 2: return std::make_shared<executor::ThreadPool>("np2", 2, ms(60000));
    case 3: return std::make_shared<executor::ThreadPool>("np3", 3, ms(5));
    default: return std::make_shared<executor::WorkerThread>();
  }
}

// A self-describing packet body: tag, direction, sender, number, length, pattern.
struct Body {
  uint32_t tag = 0, dir = 0, snd = 0, no = 0, len = 0;
};
inline uint8_t pat(const Body &b, uint32_t i) { return (uint8_t)(b.tag * 31 + b.dir * 17 + b.snd * 7 + b.no * 3 + i); }
inline Packet make_packet(const Body &b, bool line = false) {
  auto p = std::make_shared<net::packet::Basic>();
  p->set_id((net::packet::id_t)(1 + b.no % 900));
  p->set_writeable(true);
  if (line) {
    char h[96];
    int n = snprintf(h, sizeof(h), "%u %u %u %u %u ", b.tag, b.dir, b.snd, b.no, b.len);
    std::string s(h, n);
    for (uint32_t i = 0; i < b.len; ++i) s += (char)('a' + pat(b, i) % 26);
    p->write(reinterpret_cast<const std::byte *>(s.data()), s.size());
  } else {
    *p << b.tag; *p << b.dir; *p << b.snd; *p << b.no; *p << b.len;
    std::string s;
    for (uint32_t i = 0; i < b.len; ++i) s += (char)pat(b, i);
    p->write(reinterpret_cast<const std::byte *>(s.data()), s.size());
  }
  p->set_writeable(false);
  return p;
}
// False: not one of ours, or altered.
inline bool parse(const Packet &p, Body &b, bool line = false) {
  auto d = p->data();
  if (line) {
    std::string s(reinterpret_cast<const char *>(d.data()), d.size());
    int off = 0;
    if (sscanf(s.c_str(), "%u %u %u %u %u %n", &b.tag, &b.dir, &b.snd, &b.no, &b.len, &off) < 5) return false;
    if (s.size() != (size_t)off + b.len) return b.len == 0 && s.size() + 1 == (size_t)off;
    for (uint32_t i = 0; i < b.len; ++i) if (s[off + i] != (char)('a' + pat(b, i) % 26)) return false;
    return true;
  }
  if (d.size() < 20) return false;
  const uint8_t *u = reinterpret_cast<const uint8_t *>(d.data());
  auto rd = [&](int k) { return (uint32_t)u[k] << 24 | (uint32_t)u[k + 1] << 16 | (uint32_t)u[k + 2] << 8 | u[k + 3]; };
  b.tag = rd(0); b.dir = rd(4); b.snd = rd(8); b.no = rd(12); b.len = rd(16);
  if (d.size() != 20 + b.len) return false;
  if (p->id() != 1 + b.no % 900) return false;
  for (uint32_t i = 0; i < b.len; ++i) if (u[20 + i] != pat(b, i)) return false;
  return true;
}
}  // namespace netc
