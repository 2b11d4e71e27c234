// Simulated network: stream sockets with delayed, split and back-pressured
// delivery, FIN and RST, connection set-up, epoll and select.
#pragma once
#include <cstddef>
#include <cstdint>

namespace simnet {
struct Cfg {
  uint32_t delay_us = 20;       // largest extra delivery delay of a segment
  uint32_t p_split = 0;         // permille: a write is delivered in several segments
  uint32_t max_seg = 0;         // largest segment when splitting (0: any)
  uint32_t cap = 65536;         // bytes one direction can hold (buffers and flight)
  uint32_t p_short = 0;         // permille: send() accepts only part
  uint32_t p_again = 0;         // permille: send() would block for a moment
  uint32_t p_eintr = 0;         // permille: a blocking epoll_wait/select is interrupted
  uint32_t p_accept = 0;        // permille: accept fails with EMFILE
  uint32_t p_conn_lost = 0;     // permille: a connection attempt is never answered
  uint32_t conn_delay_us = 50;  // largest connection set-up time
  uint64_t hold_until = 0;      // nothing is delivered before (partition)
};
Cfg &cfg();
int open_fds();                 // simulated descriptors open now
void reset_fd(int fd);          // the connection of fd is reset by the network
size_t pending_in(int fd);      // bytes that have arrived and are unread
bool is_open(int fd);
bool established(int fd);        // the handshake of this socket has completed
uint16_t peer_port(int fd);     // of a connected socket, even after a reset; 0: none
uint64_t conns_made();
void dump();                    // every socket into the event log
}
