// Settings, tables and process id files on a disk that fails, and in processes that die.
#include "common.h"
#include "../sim/fs.h"
#include <cerrno>
#include <cmath>
#include <signal.h>
#include "plain/basic/type/variable.h"
#include "plain/file/ini.h"
#include "plain/file/tab.h"
#include "plain/sys/process.h"

using namespace scen;

namespace {
std::string path(const char *n) { return std::string(simfs::kRoot) + n; }

std::string word(uint32_t max, const char *set) {
  std::string s;
  uint32_t n = 1 + sim::choose(max), k = (uint32_t)strlen(set);
  for (uint32_t i = 0; i < n; ++i) s += set[sim::choose(k)];
  return s;
}
constexpr const char *kName = "abcdefghijklmnopqrstuvwxyzABCXYZ0189_.";
constexpr const char *kText = "abcdefghijklmnopqrstuvwxyz 0123456789,:/%()!?{}'\"_-+";

// A failure is only for a reason.
uint64_t trouble() {
  return sim::fault_count(sim::F_FS_READ_ERROR) + sim::fault_count(sim::F_FS_OPEN_ERROR) + sim::fault_count(sim::F_FS_ERROR);
}
void bad_disk() {
  auto &d = simfs::disk();
  static const uint32_t p[] = {0, 0, 20, 200, 600};
  d.p_read_short = p[sim::choose(5)];
  d.p_read_error = p[sim::choose(4)];
  d.p_open_error = sim::choose(4) == 3 ? 300 : 0;
}
void good_disk() {
  auto &d = simfs::disk();
  d.p_read_error = d.p_open_error = d.p_error = d.p_rename_error = 0;
  d.failing = false;
}

// ---- settings ---------------------------------------------------------------
using section_t = std::map<std::string, std::string>;
using settings_t = std::map<std::string, section_t>;

std::string blanks() { return std::string(sim::choose(3), sim::choose(2) ? '\t' : ' '); }

struct IniFile { settings_t want; std::string text; };
IniFile make_ini(bool number_all) {
  IniFile f;
  const char *eol = sim::choose(3) == 2 ? "\r\n" : "\n";
  auto noise = [&] {
    switch (sim::choose(8)) {
      case 5: f.text += eol; break;
      case 6: f.text += ";" + word(30, kText) + eol; break;
      case 7: f.text += blanks() + "; [x] a=b " + word(10, kText) + eol; break;
      default: break;
    }
  };
  if (sim::choose(6) == 5) { f.text += "orphan=1"; f.text += eol; sim::probe("key_without_section"); }
  const int nsec = sim::range(1, 4);
  std::vector<std::string> order;
  for (int i = 0; i < nsec; ++i) {
    noise();
    std::string s;
    if (!order.empty() && sim::choose(5) == 4) { s = order[sim::choose((uint32_t)order.size())]; sim::probe("section_again"); }
    else { do s = word(12, kName); while (f.want.count(s)); order.push_back(s); }
    auto &sec = f.want[s];
    f.text += "[" + s + "]" + (sim::choose(3) == 2 ? blanks() : "") + eol;
    const int n = sim::choose(7);
    for (int k = 0; k < n; ++k) {
      noise();
      std::string key, v;
      do key = word(16, kName); while (sec.count(key));
      switch (sim::choose(number_all ? 2 : 5)) {
        case 0: v = std::to_string((int32_t)(sim::choose(0x7fffffff)) * (sim::choose(2) ? -1 : 1)); break;
        case 1: v = std::to_string((int)sim::choose(2000) - 1000) + "." + std::to_string(sim::choose(1000)); break;
        case 2: v = word(40, kText); break;
        case 3: v = ""; break;
        case 4: v = word(20, kText) + "=" + word(sim::choose(6) == 5 ? 3000 : 600, kText); break;
      }
      while (!v.empty() && v.back() == ' ') v.pop_back();
      sec[key] = v;
      f.text += key + "=" + v + (sim::choose(4) == 3 ? blanks() : "") + (sim::choose(6) == 5 ? " ; " + word(9, kText) : "") +
                (i == nsec - 1 && k == n - 1 && sim::choose(2) ? "" : eol);
    }
  }
  return f;
}
void check_ini(plain::Ini &ini, const settings_t &want) {
  auto *data = ini.getdata();
  SIM_CHECK(data->size() == want.size(), "settings-differ", "%zu sections are there instead of %zu", data->size(), want.size());
  for (auto &[s, keys] : want) {
    auto it = data->find(s);
    SIM_CHECK(it != data->end() && it->second, "settings-differ", "section '%s' is missing", s.c_str());
    SIM_CHECK(it->second->size() == keys.size(), "settings-differ", "section '%s' has %zu settings instead of %zu", s.c_str(), it->second->size(), keys.size());
    for (auto &[k, v] : keys) {
      auto kt = it->second->find(k);
      SIM_CHECK(kt != it->second->end(), "settings-differ", "setting '%s' of '%s' is missing", k.c_str(), s.c_str());
      const char *got = ini.getstring(kt->second);
      SIM_CHECK(got && v == got, "settings-differ", "setting '%s' is '%.60s' instead of '%.60s'", k.c_str(), got ? got : "(null)", v.c_str());
      // As text, into a buffer of any size.
      const int32_t n = sim::choose(2) ? (int32_t)v.size() + 1 : 1 + (int32_t)sim::choose(64);
      auto buf = std::make_unique<char[]>(n);
      SIM_CHECK(ini.getstring_ifexist(s.c_str(), k.c_str(), buf.get(), n), "settings-differ", "setting '%s' is not found", k.c_str());
      SIM_CHECK(v.substr(0, n - 1) == buf.get(), "settings-differ", "setting '%s' is read as '%.60s' into %d bytes", k.c_str(), buf.get(), n);
      int32_t i = 77;
      SIM_CHECK(ini.getint32_ifexist(s.c_str(), k.c_str(), i) && i == atoi(v.c_str()), "settings-differ", "setting '%s'='%.60s' is the number %d", k.c_str(), v.c_str(), i);
      SIM_CHECK(ini.getint32(s.c_str(), k.c_str(), 5) == atoi(v.c_str()), "settings-differ", "setting '%s' is another number", k.c_str());
      float f = 7;
      SIM_CHECK(ini.getfloat_ifexist(s.c_str(), k.c_str(), f) && (f == (float)atof(v.c_str()) || std::isnan(f) && std::isnan(atof(v.c_str()))), "settings-differ", "setting '%s'='%.60s' is the number %g", k.c_str(), v.c_str(), f);
      plain::variable_t var;
      ini.get(s.c_str(), k.c_str(), var);
      SIM_CHECK(var.get<std::string>() == v, "settings-differ", "setting '%s' is the variable '%.60s'", k.c_str(), var.get<std::string>().c_str());
    }
    int32_t i = 77;
    float f = 7;
    char b[4] = "xy";
    SIM_CHECK(!ini.getint32_ifexist(s.c_str(), "no such", i) && i == 77, "settings-differ", "a setting that is not there is found");
    SIM_CHECK(!ini.getfloat_ifexist("no such", "a", f) && f == 7, "settings-differ", "a setting of no section is found");
    SIM_CHECK(!ini.getstring_ifexist(s.c_str(), "no such", b, 4) && !strcmp(b, "xy"), "settings-differ", "a text that is not there is found");
  }
}
void ini_user(int id) {
  const auto name = path("s") + std::to_string(id) + ".ini";
  auto ini = std::make_unique<plain::Ini>();
  for (int round = 0, n = 1 + sim::choose(4); round < n; ++round) {
    IniFile f = make_ini(false);
    if (sim::choose(8) != 7) simfs::put(name, f.text);
    else if (round == 0) {
      SIM_CHECK(!ini->open((name + "x").c_str()), "opened-nothing", "a settings file that does not exist is opened");
      continue;
    } else continue;
    const auto had = trouble();
    bool ok = ini->open(name.c_str());
    if (ok) { sim::probe("ini_read"); check_ini(*ini, f.want); }
    else {
      sim::probe("ini_refused");
      SIM_CHECK(trouble() > had, "refused-for-nothing", "a settings file of %zu bytes is refused", f.text.size());
      SIM_CHECK(ini->getdata()->empty(), "half-read", "a settings file that could not be read gives %zu sections", ini->getdata()->size());
    }
    if (sim::choose(2)) {
      ini->close();
      SIM_CHECK(ini->getdata()->empty(), "half-read", "settings are there after close()");
    }
    if (sim::choose(4) == 3) ini = std::make_unique<plain::Ini>();
  }
}

// ---- tables -----------------------------------------------------------------
struct Table {
  std::vector<int> type;                       // 0 int, 1 float, 2 text
  std::vector<std::string> name;
  std::vector<std::vector<std::string>> row;   // as written
};
Table make_table(bool big) {
  Table t;
  const int cols = sim::range(1, 6), rows = sim::choose(20) == 19 ? 100 + sim::choose(300) : sim::choose(12);
  for (int c = 0; c < cols; ++c) {
    t.type.push_back(c == 0 && sim::choose(4) ? 0 : (int)sim::choose(3));
    std::string n;
    do {
      n = word(sim::choose(10) == 9 ? 100 : 14, kName);
      if (sim::choose(8) == 7) n += "%s";
    } while (std::count(t.name.begin(), t.name.end(), n));
    t.name.push_back(n);
  }
  if (big) { t.type = {0}; t.name = {"id"}; for (int r = 0; r < 65530 + (int)sim::choose(20); ++r) t.row.push_back({std::to_string(r)}); return t; }
  int32_t id = (int32_t)sim::choose(1000) - 500;
  std::vector<std::string> seen{"x"};
  for (int r = 0; r < rows; ++r) {
    std::vector<std::string> row;
    for (int c = 0; c < cols; ++c) {
      switch (t.type[c]) {
        case 0: row.push_back(std::to_string(c == 0 ? (id += 1 + (int32_t)sim::choose(5)) : (int32_t)sim::choose(0x7fffffff) * (sim::choose(2) ? -1 : 1))); break;
        case 1: { char b[32]; snprintf(b, sizeof b, "%.3f", ((int)sim::choose(20001) - 10000) * 0.125); row.push_back(b); break; }
        default: {
          if (sim::choose(3) == 2) row.push_back(seen[sim::choose((uint32_t)seen.size())]);
          else row.push_back(c && sim::choose(6) == 5 ? "" : word(sim::choose(30) == 29 ? 900 : 20, kText));
          if (!row.back().empty()) seen.push_back(row.back());
          if (!c && row.back()[0] == '#') row.back()[0] = 'x';
        }
      }
    }
    t.row.push_back(row);
  }
  return t;
}
std::string text_of(const Table &t) {
  static const char *kType[] = {"INT", "FLOAT", "STRING"};
  const char *eol = sim::choose(2) ? "\r\n" : "\n";
  std::string s;
  for (size_t c = 0; c < t.type.size(); ++c) s += std::string(c ? "\t" : "") + kType[t.type[c]];
  s += eol;
  for (size_t c = 0; c < t.name.size(); ++c) s += (c ? "\t" : "") + t.name[c];
  s += eol;
  for (size_t r = 0; r < t.row.size(); ++r) {
    if (sim::choose(10) == 9) s += std::string("#") + word(20, kText) + "\tx" + eol;
    size_t n = t.row[r].size();
    // Cells at the end that are empty may be left out.
    if (sim::choose(3) == 2) while (n > 1 && t.row[r][n - 1].empty()) --n;
    for (size_t c = 0; c < n; ++c) s += (c ? "\t" : "") + t.row[r][c];
    if (r + 1 < t.row.size() || sim::choose(2)) s += eol;
  }
  return s;
}
void check_cell(const plain::Tab::field_data *d, int type, const std::string &v, size_t r, size_t c) {
  SIM_CHECK(d, "table-differs", "row %zu has no column %zu", r, c);
  if (type == 0) SIM_CHECK(d->int_value == atoi(v.c_str()), "table-differs", "row %zu column %zu is %d instead of %s", r, c, d->int_value, v.c_str());
  if (type == 1) SIM_CHECK(d->float_value == (float)atof(v.c_str()), "table-differs", "row %zu column %zu is %g instead of %s", r, c, d->float_value, v.c_str());
  if (type == 2) SIM_CHECK(v == d->string_value, "table-differs", "row %zu column %zu is '%.40s' instead of '%.40s'", r, c, d->string_value, v.c_str());
}
void check_table(plain::Tab &tab, const Table &t, bool names) {
  SIM_CHECK(tab.get_record_number() == (int32_t)t.row.size(), "table-differs", "the table has %d rows instead of %zu", tab.get_record_number(), t.row.size());
  SIM_CHECK(tab.get_field_number() == (int32_t)t.type.size(), "table-differs", "the table has %d columns instead of %zu", tab.get_field_number(), t.type.size());
  for (size_t c = 0; c < t.type.size(); ++c) {
    SIM_CHECK(tab.get_fieldtype((int32_t)c) == t.type[c], "table-differs", "column %zu is of type %d", c, tab.get_fieldtype((int32_t)c));
    if (!names) continue;
    SIM_CHECK(t.name[c] == tab.get_fieldname((int32_t)c), "table-differs", "column %zu is called '%s'", c, tab.get_fieldname((int32_t)c));
    SIM_CHECK(tab.get_fieldindex(t.name[c].c_str()) == (int32_t)c, "table-differs", "column '%s' is the %d.", t.name[c].c_str(), tab.get_fieldindex(t.name[c].c_str()));
  }
  if (names) SIM_CHECK(tab.get_fieldindex("no such") == -1, "table-differs", "a column that is not there is found");
  for (size_t r = 0; r < t.row.size(); ++r) {
    for (size_t c = 0; c < t.type.size(); ++c) {
      check_cell(tab.search_position((int32_t)r, (int32_t)c), t.type[c], t.row[r][c], r, c);
      if (names && c == r % t.type.size()) check_cell(tab.get_fielddata((int32_t)r, t.name[c].c_str()), t.type[c], t.row[r][c], r, c);
    }
  }
  for (int k = 0; k < 3; ++k) {
    const int32_t rows = (int32_t)t.row.size(), cols = (int32_t)t.type.size();
    int32_t r = sim::choose(2) ? rows + (int32_t)sim::choose(3) : -1 - (int32_t)sim::choose(3), c = (int32_t)sim::choose((uint32_t)cols);
    if (sim::choose(2) && rows) { c = sim::choose(2) ? cols + (int32_t)sim::choose(3) : -1 - (int32_t)sim::choose(3); r = (int32_t)sim::choose((uint32_t)rows); }
    SIM_CHECK(!tab.search_position(r, c), "table-differs", "there is a row %d column %d in a table of %d rows and %d columns", r, c, rows, cols);
  }
  // By value of a column: the first row that has it.
  auto row_of = [&](const plain::Tab::field_data *d) -> long {
    return d ? (long)((d - tab.search_position(0, 0)) / (long)t.type.size()) : -1;
  };
  for (int k = 0; k < 4 && !t.row.empty(); ++k) {
    size_t r = sim::choose((uint32_t)t.row.size()), c = sim::choose((uint32_t)t.type.size());
    const auto &v = t.row[r][c];
    size_t first = 0;
    while (t.row[first][c] != v) ++first;
    if (t.type[c] == 1) for (first = 0; atof(t.row[first][c].c_str()) != atof(v.c_str()); ++first) {}
    plain::Tab::field_data key;
    if (t.type[c] == 0) key.int_value = atoi(v.c_str());
    if (t.type[c] == 1) key.float_value = (float)atof(v.c_str());
    if (t.type[c] == 2) key.string_value = v.c_str();
    long got = row_of(tab.search_first_column_equal((int32_t)c, key));
    SIM_CHECK(got == (long)first, "table-differs", "the first row with '%.40s' in column %zu is said to be %ld instead of %zu", v.c_str(), c, got, first);
    if (t.type[c] != 0) continue;
    if (c) { tab.create_index((int32_t)c); sim::probe("index_of_another_column"); }
    bool once = true;
    for (size_t i = 0; i < t.row.size(); ++i) if (i != r && t.row[i][c] == v) once = false;
    got = row_of(tab.search_index_equal(atoi(v.c_str())));
    SIM_CHECK(!once || got == (long)r, "table-differs", "the row with %s in column %zu is said to be %ld instead of %zu", v.c_str(), c, got, r);
    if (c) tab.create_index(0);
  }
  if (t.type[0] == 0) SIM_CHECK(!tab.search_index_equal(-100000), "table-differs", "a row that is not there is found");
}
void tab_user(int id) {
  const auto name = path("t") + std::to_string(id);
  auto &disk = simfs::disk();
  auto tab = std::make_unique<plain::Tab>(id);
  SIM_CHECK(!tab->open_from_txt((name + "-none").c_str()), "opened-nothing", "a table that does not exist is opened");
  for (int round = 0, n = 1 + sim::choose(3); round < n; ++round) {
    Table t = make_table(sim::choose(2000) == 1999);
    std::string text = text_of(t);
    simfs::put(name, text);
    const auto had = trouble();
    if (!tab->open_from_txt(name.c_str())) {
      sim::probe("tab_refused");
      SIM_CHECK(trouble() > had, "refused-for-nothing", "a table of %zu bytes is refused", text.size());
      continue;
    }
    sim::probe("tab_read");
    check_table(*tab, t, true);
    // Saved, and opened again.
    for (int how = 0; how < 2; ++how) {
      if (sim::choose(2) == 0) continue;
      const auto copy = name + (how ? "-bin" : "-txt");
      disk.failing = sim::choose(2);
      disk.partial = true;
      static const uint32_t p[] = {50, 400, 1000};
      disk.p_error = p[sim::choose(3)];
      disk.p_short = sim::choose(2) * 200;
      auto before = trouble();
      bool ok = how ? tab->save_tobinary(copy.c_str()) : tab->save_totext(copy.c_str());
      disk.failing = false;
      if (!ok) {
        sim::probe("save_refused");
        SIM_CHECK(trouble() > before, "refused-for-nothing", "a table could not be saved though nothing failed");
        continue;
      }
      sim::probe(how ? "saved_binary" : "saved_text");
      auto again = std::make_unique<plain::Tab>(7);
      before = trouble();
      if (!again->open_from_txt(copy.c_str())) {
        SIM_CHECK(trouble() > before, "save-incomplete", "a table that was saved as %s cannot be opened", how ? "binary" : "text");
        continue;
      }
      check_table(*again, t, how == 0);
    }
    if (sim::choose(4) == 3) tab = std::make_unique<plain::Tab>(id);
  }
}

// ---- process ids --------------------------------------------------------------
struct Procs {
  int ours = 0, signals = 0;
  uint64_t gone_at = 0;        // of the process that is waited for
  bool alive = true;
};
}  // namespace

SCENARIO_STEPS(file_ini, 20000000) {
  bad_disk();
  std::vector<Thr> t;
  for (int i = 0, n = sim::choose(3) == 2 ? 2 : 1; i < n; ++i) t.emplace_back([i] { ini_user(i); });
}

SCENARIO_STEPS(file_tab, 400000000) {
  bad_disk();
  std::vector<Thr> t;
  for (int i = 0, n = sim::choose(3) == 2 ? 2 : 1; i < n; ++i) t.emplace_back([i] { tab_user(i); });
}

SCENARIO(file_pid) {
  auto &disk = simfs::disk();
  const auto name = path("p.pid");
  auto pr = std::make_unique<Procs>();
  static const int kIds[] = {1, 7, 10, 42, 999, 4242, 31337, 32768, 123456, 4194303};
  int32_t named = 0;          // the process that the file names
  for (int round = 0, n = 1 + sim::choose(4); round < n; ++round) {
    // Another process writes its id and may die, or find the disk full, while it does.
    const int32_t id = kIds[sim::choose(10)];
    sim::g_pid = id;
    disk.crash_in = sim::choose(2) ? 0 : 1 + sim::choose(5);
    disk.failing = sim::choose(3) == 2;
    disk.partial = true;
    disk.p_error = 600;
    disk.p_rename_error = sim::choose(3) == 2 ? 500 : 0;
    disk.p_short = sim::choose(2) * 500;
    disk.p_open_error = sim::choose(4) == 3 ? 300 : 0;
    const auto had = trouble();
    bool ok = plain::process::writeid(name.c_str());
    const bool died = disk.crashed;
    const bool hurt = trouble() > had;
    disk.crashed = false;
    disk.crash_in = 0;
    good_disk();
    disk.p_short = 0;
    sim::g_pid = 4242;
    int32_t got = plain::process::getid(name.c_str());
    if (died) {
      sim::probe("died_while_writing");
      SIM_CHECK(got == -1 || got == id || (named && got == named), "wrong-process", "after a crash while %d was written the file names %d", id, got);
    } else if (ok) {
      SIM_CHECK(got == id, "wrong-process", "the file names %d instead of %d", got, id);
    } else {
      SIM_CHECK(hurt, "refused-for-nothing", "the id could not be written though nothing failed");
      SIM_CHECK(got == -1 || got == id || (named && got == named), "wrong-process", "after writing %d failed the file names %d", id, got);
    }
    named = got == -1 ? 0 : got;
  }
  if (sim::choose(6) == 5) {       // somebody else's file
    static const char *kBad[] = {"", "\n", "pid", "0", "-1", "-4242", " ", "0x"};
    simfs::put(name, kBad[sim::choose(8)]);
    SIM_CHECK(plain::process::getid(name.c_str()) == -1, "wrong-process", "a file without an id names process %d", plain::process::getid(name.c_str()));
    named = 0;
  }
  SIM_CHECK(plain::process::getid(path("none").c_str()) == -1, "wrong-process", "a file that is not there names a process");
  // Wait for it to go.
  pr->alive = named && sim::choose(5) != 4;
  const int after = sim::choose(3);           // how many signals it takes; it may also go by itself
  if (pr->alive && sim::choose(2)) sim::at(sim::now() + sim::choose(20000) * 1000000ull, [&] { if (pr->alive) { pr->alive = false; pr->gone_at = sim::now(); } });
  static const uint64_t kSlow[] = {1, 1, 10, 500};   // it may take more than an hour
  const uint64_t slow = kSlow[sim::choose(4)];
  simfs::on_kill = [&](int pid, int sig) -> int {
    SIM_CHECK(named && pid == named, "wrong-process", "process %d is signalled instead of %d", pid, named);
    if (!pr->alive) return ESRCH;
    if (sig == 0) return 0;
    SIM_CHECK(sig == SIGUSR1, "wrong-signal", "process %d gets signal %d", pid, sig);
    if (++pr->signals > after || pr->signals > 1)
      sim::at(sim::now() + slow * sim::choose(8000) * 1000000ull, [&] { if (pr->alive) { pr->alive = false; pr->gone_at = sim::now(); } });
    return 0;
  };
  const bool lives = pr->alive;
  bool r = plain::process::waitexit(sim::choose(10) == 9 ? nullptr : name.c_str());
  if (r) {
    sim::probe("waited");
    SIM_CHECK(named, "waited-for-nobody", "waitexit() is true though the file names no process");
    SIM_CHECK(!pr->alive, "exit-early", "waitexit() returns while process %d runs", named);
  } else if (named) {
    // only for want of a file name
    sim::probe("not_waited");
    SIM_CHECK(pr->signals == 0, "wait-refused", "waitexit() signals process %d and gives up", named);
    SIM_CHECK(plain::process::waitexit(name.c_str()), "wait-refused", "waitexit() fails though the file names process %d", named);
  }
  if (lives && named) SIM_CHECK(pr->signals > 0 || pr->gone_at, "not-signalled", "process %d is never asked to go", named);
  simfs::on_kill = nullptr;
}
