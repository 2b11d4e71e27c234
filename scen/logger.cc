// Asynchronous logger on a simulated disk.
#include "common.h"
#include "../sim/fs.h"
#include "plain/basic/async_logger.h"
#include "plain/basic/global.h"
#include "plain/basic/logger.h"

using namespace scen;

namespace {
struct Line {
  int thr, no;
  std::string text;        // with newline; for Logger lines only the marker
  uint64_t begin_seq = 0, end_seq = 0, end_time = 0;
  bool returned = false, must = false;
  size_t pos = 0;
  int seen = 0;
};
struct LW2 {
  std::deque<Line> lines;
  std::map<std::string, Line *> by_mark;
  bool overload_possible = false;
};
LW2 *G;

// Every line carries a unique marker "<t:n>" and a self-describing body.
std::string make_text(int thr, int no, int len) {
  std::string m = "<" + std::to_string(thr) + ":" + std::to_string(no) + ":" + std::to_string(len) + ">";
  char c = (char)('a' + (thr * 7 + no) % 26);
  m += std::string(len, c);
  m += "|";
  return m;
}

Line *new_line(int thr, int no, int len) {
  sim::NoPreempt g;
  G->lines.emplace_back();
  Line &l = G->lines.back();
  l.thr = thr; l.no = no;
  l.text = make_text(thr, no, len);
  G->by_mark[l.text.substr(0, l.text.find('>') + 1)] = &l;
  return &l;
}

std::string all_data() {
  std::string s;
  for (auto *f : simfs::disk().files) s += f->data;
  return s;
}

// Parses the disk content.  `strict`: every byte must belong to an appended
// line (or the documented overload notice).
void scan(const std::string &data, bool via_logger, bool partial_tail, bool &dropped) {
  for (auto &l : G->lines) l.seen = 0;
  size_t i = 0;
  int n = 0;
  while (i < data.size()) {
    size_t e = data.find('\n', i);
    if (e == std::string::npos) {
      SIM_CHECK(partial_tail, "line-torn", "the log ends with an unterminated line");
      return;
    }
    std::string row = data.substr(i, e - i);
    if (row.compare(0, 20, "Dropped log messages") == 0) {
      dropped = true;
      SIM_CHECK(G->overload_possible, "line-dropped", "messages were dropped although the logger was never overloaded");
    } else {
      size_t b = row.find('<'), c = row.find('>', b);
      if (via_logger) { b = row.find("<"); while (b != std::string::npos && !(row[b + 1] >= '0' && row[b + 1] <= '9')) b = row.find('<', b + 1); c = row.find('>', b); }
      SIM_CHECK(b != std::string::npos && c != std::string::npos, "line-garbled", "row %d is not one of the appended lines: '%.60s'", n, row.c_str());
      auto it = G->by_mark.find(row.substr(b, c - b + 1));
      SIM_CHECK(it != G->by_mark.end(), "line-garbled", "row %d has an unknown marker: '%.60s'", n, row.c_str());
      Line *l = it->second;
      if (!via_logger) SIM_CHECK(row == l->text, "line-garbled", "line %d:%d is altered (%zu bytes instead of %zu)", l->thr, l->no, row.size(), l->text.size());
      else SIM_CHECK(row.find(l->text) == b, "line-garbled", "line %d:%d is altered", l->thr, l->no);
      ++l->seen;
      SIM_CHECK(l->seen == 1, "line-duplicated", "line %d:%d is in the log twice", l->thr, l->no);
      l->pos = i;
    }
    ++n;
    i = e + 1;
  }
}
void check_order() {
  for (auto &a : G->lines)
    for (auto &b : G->lines)
      if (a.seen && b.seen && a.returned && a.end_seq < b.begin_seq)
        SIM_CHECK(a.pos < b.pos, "line-order", "line %d:%d was appended before line %d:%d but is logged after it", a.thr, a.no, b.thr, b.no);
}
void check_present(bool dropped, const char *when) {
  if (dropped) return;
  for (auto &l : G->lines)
    if (l.must) SIM_CHECK(l.seen == 1, "line-lost", "line %d:%d, appended before, is missing from the log %s", l.thr, l.no, when);
}
}  // namespace

SCENARIO_STEPS(log_async, 6000000) {
  LW2 w;
  G = &w;
  auto &cfg = sim::config();
  bool calm = sim::choose(2) == 0;
  if (calm) cfg.p_stall = cfg.p_leap = cfg.p_late = 0;
  GLOBALS["log.directory"] = std::string("/tmp/.");
  GLOBALS["log.print"] = false;
  auto &disk = simfs::disk();
  disk.slow = sim::choose(3) == 2;
  disk.p_short = sim::choose(4) == 3 ? 200 : 0;
  bool io_errors = sim::chance(200);
  static const size_t rolls[] = {1u << 20, 600, 6000, 40000};
  size_t roll = rolls[sim::choose(4)];
  int flush = sim::choose(2) ? 1 : 3;
  bool via_logger = sim::choose(3) == 2;
  int nthr = 1 + sim::choose(3);
  int nlines = 1 + sim::choose(sim::choose(3) == 2 ? 40 : 8);
  int big = sim::choose(4) == 3 ? 4000 : sim::choose(2) ? 300 : 20;
  if (via_logger) big = std::min(big, 300);
  bool burst = sim::chance(60);
  if (burst) { via_logger = false; nthr = 3; nlines = 60; big = 8000; disk.slow = true; }
  w.overload_possible = (size_t)nthr * nlines * (big + 80) > 20 * 16384;
  int mode = sim::choose(4);   // 0 settle then stop, 1 stop at once, 2 stop races, 3 destructor
  bool late_start = sim::chance(200);
  uint64_t stop_begin = 0;
  bool dropped = false;
  {
    auto lg = std::make_unique<plain::AsyncLogger>("lg", roll, flush);
    plain::AsyncLogger *raw = lg.get();
    plain::Logger::set_output([raw](const std::string_view &s) { raw->append(s); });
    plain::Logger::set_flush([] {});
    if (!late_start) lg->start();
    auto put = [&](Line *l) {
      { sim::NoPreempt g; l->begin_seq = sim::seqno(); }
      if (via_logger) LOG_WARN << l->text.c_str() << 7 << ' ';
      else raw->append(l->text + "\n");
      sim::NoPreempt g;
      l->end_seq = sim::seqno();
      l->end_time = sim::now();
      l->returned = true;
      if (!stop_begin) l->must = true;
    };
    std::vector<Thr> th;
    for (int t = 0; t < nthr; ++t)
      th.emplace_back([&, t] {
        for (int i = 0; i < nlines; ++i) {
          if (burst) { if (sim::chance(20)) sim::yield(); }
          else if (sim::chance(300)) maybe_pause(30000);
          else if (sim::chance(60)) sim::sleep_ns(kMs * (1 + sim::choose(4000)));
          put(new_line(t, i, sim::choose(big)));
        }
      });
    if (late_start) { maybe_pause(5000); lg->start(); }
    if (io_errors && mode != 2) {
      disk.p_error = 500;
      disk.failing = true;
      sim::sleep_ns(kMs * (1 + sim::choose(5000)));
      disk.failing = false;
    }
    bool had_errors = false;
    if (mode != 2) th.clear();
    { sim::NoPreempt g; had_errors = disk.errors > 0; }
    if (mode == 0) {
      // flush interval: everything appended is on disk soon, without any stop
      sim::sleep_ns((uint64_t)(flush + (calm ? 2 : 60)) * kSec);
      if (!had_errors) {
        scan(all_data(), via_logger, false, dropped);
        check_present(dropped, "although the flush interval has passed");
        sim::probe("flushed_in_time");
      }
    } else if (mode == 2) maybe_pause(30000);
    if (had_errors) {
      // once the disk works again, logging works again
      sim::sleep_ns(100 * kMs);
      std::vector<Line *> after;
      for (int i = 0; i < 3; ++i) { after.push_back(new_line(9, i, 30)); put(after.back()); maybe_pause(1000); }
      lg->stop();
      lg.reset();
      std::string data = all_data();
      size_t last = 0;
      for (auto *l : after) {
        size_t p = data.find(l->text);
        SIM_CHECK(p != std::string::npos, "line-lost", "a line appended after the disk recovered is missing");
        SIM_CHECK(data.find(l->text, p + 1) == std::string::npos, "line-duplicated", "a line appended after the disk recovered is logged twice");
        SIM_CHECK(p >= last, "line-order", "lines after recovery out of order");
        last = p;
      }
      for (auto &l : w.lines) {
        size_t p = data.find(l.text);
        if (p != std::string::npos) SIM_CHECK(data.find(l.text, p + 1) == std::string::npos, "line-duplicated", "line %d:%d logged twice", l.thr, l.no);
      }
      sim::probe("disk_recovered");
      plain::Logger::set_output([](const std::string_view &) {});
      return;
    }
    { sim::NoPreempt g; stop_begin = sim::seqno(); sim::event("stop"); }
    if (mode == 3) lg.reset();
    else lg->stop();
    th.clear();
    scan(all_data(), via_logger, false, dropped);
    check_present(dropped, "after stop");
    check_order();
    plain::Logger::set_output([](const std::string_view &) {});
    lg.reset();
  }
  if (disk.files.size() > 1) sim::probe("rolled");
  if (dropped) sim::probe("overload_dropped");
  // a file grows beyond the roll size by at most one buffer
  for (size_t i = 0; i + 1 < disk.files.size(); ++i)
    SIM_CHECK(disk.files[i]->data.size() > roll, "rolled-early", "file %zu was closed at %zu bytes, roll size %zu, on the same day", i, disk.files[i]->data.size(), roll);
}

// Process crash: what was appended longer ago than the flush interval survives.
SCENARIO_STEPS(log_crash, 6000000) {
  LW2 w;
  G = &w;
  auto &cfg = sim::config();
  cfg.p_stall = cfg.p_leap = cfg.p_late = 0;
  GLOBALS["log.directory"] = std::string("/tmp/.");
  auto &disk = simfs::disk();
  disk.slow = sim::choose(3) == 2;
  disk.p_short = sim::choose(4) == 3 ? 200 : 0;
  static const size_t rolls[] = {1u << 20, 600, 6000};
  int flush = sim::choose(2) ? 1 : 3;
  int nthr = 1 + sim::choose(2), nlines = 1 + sim::choose(12);
  int big = sim::choose(3) == 2 ? 2500 : 100;
  auto *lg = new plain::AsyncLogger("lg", rolls[sim::choose(3)], flush);
  lg->start();
  bool crashed = false;
  std::vector<Thr> th;
  for (int t = 0; t < nthr; ++t)
    th.emplace_back([&, t] {
      for (int i = 0; i < nlines; ++i) {
        sim::sleep_ns(kMs * (1 + sim::choose(sim::choose(3) ? 900 : 20)));
        { sim::NoPreempt g; if (crashed) return; }
        Line *l = new_line(t, i, sim::choose(big));
        { sim::NoPreempt g; l->begin_seq = sim::seqno(); }
        lg->append(l->text + "\n");
        sim::NoPreempt g;
        l->returned = true;
        l->end_seq = sim::seqno();
        l->end_time = sim::now();
      }
    });
  sim::sleep_ns(kMs * (1 + sim::choose(9000)));
  {
    sim::NoPreempt g;
    sim::count_fault(sim::F_CRASH);
    crashed = true;
    std::string data = all_data();   // what the kernel has
    bool dropped = false;
    scan(data, false, true, dropped);
    for (auto &l : w.lines)
      l.must = l.returned && l.end_time + (uint64_t)flush * kSec + 1500 * kMs < sim::now();
    check_present(dropped, "after a crash later than the flush interval");
    check_order();
  }
  th.clear();
  lg->stop();
  delete lg;
}

// Rolling: a new file only for size or a new day, and then soon.
SCENARIO_STEPS(log_roll, 8000000) {
  LW2 w;
  G = &w;
  auto &cfg = sim::config();
  cfg.p_stall = cfg.p_leap = cfg.p_late = 0;
  cfg.mem_gap = 0;
  GLOBALS["log.directory"] = std::string("/tmp/.");
  auto &disk = simfs::disk();
  auto *lg = new plain::AsyncLogger("lg", 1u << 30, 1 + sim::choose(3));
  uint64_t t0 = sim::wall() / kSec;
  uint64_t total = 500 + sim::choose(12000);
  lg->start();
  int i = 0;
  while (sim::wall() / kSec - t0 < total) {
    sim::sleep_ns(kSec * (1 + sim::choose(600)));
    Line *l = new_line(0, i++, sim::choose(60));
    l->begin_seq = sim::seqno();
    lg->append(l->text + "\n");
    l->end_seq = sim::seqno();
    l->returned = l->must = true;
  }
  lg->stop();
  delete lg;
  uint64_t t1 = sim::wall() / kSec;
  bool dropped = false;
  scan(all_data(), false, false, dropped);
  check_present(dropped, "after stop");
  check_order();
  size_t days = t1 / 86400 - t0 / 86400;
  SIM_CHECK(disk.files.size() <= 1 + days, "rolled-early", "%zu files for %llu s of logging across %zu midnights, far below the size limit",
            disk.files.size(), (unsigned long long)(t1 - t0), days);
  uint64_t after = days ? t1 % 86400 : 0;
  if (after > 3 * 1024 + 60) {
    SIM_CHECK(disk.files.size() >= 2, "not-rolled", "still the same file %llu s after midnight", (unsigned long long)after);
    sim::probe("rolled_at_midnight");
  }
  if (t1 - t0 > 3200) sim::probe("over_1024_writes");
}
