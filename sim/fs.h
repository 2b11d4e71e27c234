// Simulated files: every path under simfs::kRoot opened with fopen() or a file stream.
// Data handed to the "kernel" (the stdio buffer was flushed) survives a crash
// of the simulated process; what is still buffered does not.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace simfs {
constexpr const char *kRoot = "/tmp/./";   // std::filesystem::exists() holds for it
struct FileRec {
  std::string path, data;
  uint64_t opened_seq;
  int opens = 0;
};
struct Disk {
  std::vector<FileRec *> files;            // in creation order
  bool slow = false;                       // writes take simulated time
  uint32_t p_short = 0;                    // permille: short write
  uint32_t p_error = 0;                    // permille: EIO/ENOSPC while failing
  bool failing = false;
  bool partial = false;                    // a failed write may leave a part behind
  uint32_t p_read_short = 0, p_read_error = 0, p_open_error = 0;   // permille
  uint32_t p_rename_error = 0;
  uint32_t crash_in = 0;                   // the process dies in the n-th change of the disk
  bool crashed = false;                    // nothing reaches the disk any more
  uint64_t writes = 0, bytes = 0, errors = 0;
};
Disk &disk();
FileRec *find(const std::string &path);
FileRec *put(const std::string &path, const std::string &data);   // as if it were there already

// Processes other than this one, for kill().
extern std::function<int(int pid, int sig)> on_kill;    // returns 0 or an errno
}  // namespace simfs
namespace sim { extern int g_pid; }
