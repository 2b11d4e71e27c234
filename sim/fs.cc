// fopen() and file streams on the simulated file system; everything else of stdio is real.
#include "fs.h"
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <memory>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

namespace {
simfs::Disk *g_disk;
std::set<int> *g_streams;      // descriptors of file streams: their read() is simulated

struct Cookie { simfs::FileRec *f; size_t pos; bool gone; };

bool in_root(const char *path) { return sim::active() && !strncmp(path, simfs::kRoot, strlen(simfs::kRoot)); }

// One change of the disk; false if the process is dead by now.
bool change() {
  auto &d = *g_disk;
  if (d.crashed) return false;
  if (d.crash_in && --d.crash_in == 0) { sim::count_fault(sim::F_CRASH); d.crashed = true; return false; }
  return true;
}

ssize_t ck_write(void *c, const char *buf, size_t n) {
  auto *ck = static_cast<Cookie *>(c);
  auto &d = simfs::disk();
  if (d.slow && sim::chance(300)) {
    sim::count_fault(sim::F_FS_SLOW);
    sim::sleep_ns(1000ull * (1 + sim::choose(20000)));
  } else sim::sync_point();
  bool torn = false;
  auto g = std::make_unique<sim::NoPreempt>();
  ++d.writes;
  if (d.failing && sim::fault(sim::F_FS_ERROR, d.p_error)) {
    ++d.errors;
    if (d.partial && n > 1 && sim::choose(2)) ck->f->data.append(buf, sim::choose((uint32_t)n));   // what still fitted
    errno = sim::choose(2) ? ENOSPC : EIO;
    return 0;     // fopencookie: 0 = error
  }
  const bool dead = d.crashed;
  if (!change()) {
    if (!dead && n > 1) ck->f->data.append(buf, sim::choose((uint32_t)n));            // torn
    return (ssize_t)n;
  }
  // A short write(2) makes stdio call again for the rest, so it shows up as
  // several pieces with the world moving on in between.
  size_t off = 0;
  if (d.p_short && n > 1 && sim::fault(sim::F_FS_SHORT_WRITE, d.p_short)) {
    off = 1 + sim::choose((uint32_t)(n - 1));
    ck->f->data.append(buf, off);
    torn = true;
  }
  if (torn) {
    g.reset();
    sim::sleep_ns(1000ull * (1 + sim::choose(3000)));
    g = std::make_unique<sim::NoPreempt>();
  }
  ck->f->data.append(buf + off, n - off);
  d.bytes += n;
  return (ssize_t)n;
}
// How much of `n` the next read gives; -1: an error, with errno set.
ssize_t read_some(size_t n) {
  auto &d = *g_disk;
  if (sim::fault(sim::F_FS_READ_ERROR, d.p_read_error)) { errno = EIO; return -1; }
  if (n > 1 && sim::fault(sim::F_FS_SHORT_READ, d.p_read_short)) return 1 + (ssize_t)sim::choose((uint32_t)(n - 1));
  return (ssize_t)n;
}
ssize_t ck_read(void *c, char *buf, size_t n) {
  auto *ck = static_cast<Cookie *>(c);
  sim::sync_point();
  sim::NoPreempt g;
  size_t left = ck->f->data.size() - std::min(ck->pos, ck->f->data.size());
  n = std::min(n, left);
  ssize_t r = read_some(n);
  if (r <= 0) return r;
  memcpy(buf, ck->f->data.data() + ck->pos, r);
  ck->pos += r;
  return r;
}
int ck_seek(void *c, off64_t *off, int whence) {
  auto *ck = static_cast<Cookie *>(c);
  off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)ck->pos : (off64_t)ck->f->data.size();
  if (base + *off < 0) { errno = EINVAL; return -1; }
  ck->pos = base + *off;
  *off = ck->pos;
  return 0;
}
int ck_close(void *c) {
  delete static_cast<Cookie *>(c);
  return 0;
}
}  // namespace

namespace simfs {
Disk &disk() { return *g_disk; }
std::function<int(int, int)> on_kill;
FileRec *find(const std::string &path) {
  for (auto *f : g_disk->files) if (f->path == path) return f;
  return nullptr;
}
FileRec *put(const std::string &path, const std::string &data) {
  sim::NoPreempt g;
  auto *r = find(path);
  if (!r) {
    r = new FileRec;
    r->path = path;
    r->opened_seq = sim::seqno();
    g_disk->files.push_back(r);
  }
  r->data = data;
  return r;
}
}
namespace sim {
int g_pid = 4242;
void fs_reset() { g_disk = new simfs::Disk; g_streams = new std::set<int>; g_pid = 4242; simfs::on_kill = nullptr; }
}

extern "C" {
static FILE *sim_fopen(const char *path, const char *mode) {
  sim::NoPreempt g;
  auto &d = *g_disk;
  simfs::FileRec *r = simfs::find(path);
  if (sim::fault(sim::F_FS_OPEN_ERROR, d.p_open_error)) { errno = mode[0] == 'r' ? EMFILE : EACCES; return nullptr; }
  if (mode[0] == 'r') {
    if (!r) { errno = ENOENT; return nullptr; }
    ++r->opens;
    if (strlen(path) > 4 && !strcmp(path + strlen(path) - 4, ".ini")) {
      // A file stream reads by the descriptor.
      int fd = (int)syscall(SYS_memfd_create, "sim", 0);
      if (fd < 0) return nullptr;
      for (size_t o = 0; o < r->data.size();) {
        auto k = syscall(SYS_pwrite64, fd, r->data.data() + o, r->data.size() - o, o);
        if (k <= 0) break;
        o += k;
      }
      g_streams->insert(fd);
      return fdopen(fd, "r");
    }
    cookie_io_functions_t io{};
    io.read = ck_read;
    io.seek = ck_seek;
    io.close = ck_close;
    return fopencookie(new Cookie{r, 0, false}, "r", io);
  }
  if (!r && !(d.crashed)) {
    r = new simfs::FileRec;
    r->path = path;
    r->opened_seq = sim::seqno();
    if (change()) d.files.push_back(r);
  } else if (r && mode[0] == 'w') {
    if (change()) r->data.clear();
  }
  if (!r) { r = new simfs::FileRec; r->path = path; }   // of a dead process: nobody sees it
  ++r->opens;
  cookie_io_functions_t io{};
  io.write = ck_write;
  io.close = ck_close;
  sim::event("open file %zu", d.files.size());
  return fopencookie(new Cookie{r, 0, false}, "a", io);
}
FILE *fopen(const char *path, const char *mode) {
  static auto real = reinterpret_cast<FILE *(*)(const char *, const char *)>(dlsym(RTLD_NEXT, "fopen"));
  if (in_root(path)) return sim_fopen(path, mode);
  return real(path, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }

ssize_t read(int fd, void *b, size_t n) {
  if (sim::active() && g_streams && g_streams->count(fd)) {
    sim::sync_point();
    sim::NoPreempt g;
    if (sim::fault(sim::F_FS_EINTR, g_disk->p_read_short / 4)) { errno = EINTR; return -1; }
    ssize_t k = read_some(n);
    if (k <= 0) return k;
    return syscall(SYS_read, fd, b, (size_t)k);
  }
  return syscall(SYS_read, fd, b, n);
}
int rename(const char *from, const char *to) {
  if (!in_root(from)) return (int)syscall(SYS_rename, from, to);
  sim::NoPreempt g;
  auto &d = *g_disk;
  auto *f = simfs::find(from);
  if (!f) { errno = ENOENT; return -1; }
  if (sim::fault(sim::F_FS_ERROR, d.p_rename_error)) { errno = EIO; return -1; }
  if (!change()) return 0;
  if (auto *t = simfs::find(to); t && t != f) d.files.erase(std::find(d.files.begin(), d.files.end(), t));
  f->path = to;
  return 0;
}
static int sim_unlink(const char *path) {
  sim::NoPreempt g;
  auto *f = simfs::find(path);
  if (!f) { errno = ENOENT; return -1; }
  if (change()) g_disk->files.erase(std::find(g_disk->files.begin(), g_disk->files.end(), f));
  return 0;
}
int unlink(const char *path) noexcept {
  if (in_root(path)) return sim_unlink(path);
  return (int)syscall(SYS_unlink, path);
}
int remove(const char *path) noexcept {
  if (in_root(path)) return sim_unlink(path);
  static auto real = reinterpret_cast<int (*)(const char *)>(dlsym(RTLD_NEXT, "remove"));
  return real(path);
}
int kill(pid_t pid, int sig) noexcept {
  if (!sim::active()) return (int)syscall(SYS_kill, pid, sig);
  sim::sync_point();
  sim::NoPreempt g;
  int e = simfs::on_kill ? simfs::on_kill(pid, sig) : ESRCH;   // never a real process
  if (e) { errno = e; return -1; }
  return 0;
}
}
