// The engine's console: lines in, answers out, while commands are registered and nets come and go.
#include "netc.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/engine/kernel.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

using namespace netc;

namespace {
struct Peek : plain::Singleton<plain::Kernel> { static auto &ptr() { return singleton_; } };
struct OW {
  std::map<std::string, int> version;      // of the handlers that are in place for sure
  std::map<std::string, int> calls;
  std::map<std::string, std::shared_ptr<net::Listener>> nets;
  std::set<std::string> killed;
  std::set<std::string> left;               // stopped and gone for sure
  bool kills = false;
  int clients = 0;
  bool ending = false, ended = false;
};
OW *O;

int dial(int port) {
  int fd = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons((uint16_t)port);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (::connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof(a)) != 0) { ::close(fd); return -1; }
  return fd;
}
struct Term {
  int fd = -1;
  std::string in;
  bool closed = false;
  bool put(const std::string &s) {
    size_t i = 0;
    while (i < s.size()) {
      ssize_t n = ::send(fd, s.data() + i, s.size() - i, MSG_NOSIGNAL);
      if (n <= 0) { closed = true; return false; }
      i += (size_t)n;
    }
    return true;
  }
  // False: nothing more for now.
  bool more() {
    char b[256];
    ssize_t n = ::recv(fd, b, sizeof(b), MSG_DONTWAIT);
    if (n > 0) { in.append(b, (size_t)n); return true; }
    if (n == 0 || errno != EAGAIN) closed = true;
    return false;
  }
  bool until(const std::function<bool()> &f) { return patient([&] { while (more()) {} return f() || closed; }); }
  ~Term() { if (fd >= 0) ::close(fd); }
};
void client(int who, int port) {
  Term t;
  for (int i = 0; i < 20000 && t.fd < 0; ++i) { t.fd = dial(port); if (t.fd < 0) sim::sleep_ns(2 * kMs); if (O->ending) break; }
  if (t.fd < 0) { SIM_CHECK(O->ending, "console-silent", "no connection to the console"); return; }
  int n = 1 + sim::choose(6);
  std::string out, want;
  bool bad = false;
  std::vector<std::pair<std::string, int>> versions;   // answers that depend on a registration: name and least version
  for (int i = 0; i < n && !bad; ++i) {
    std::string eol = sim::choose(2) ? "\r\n" : "\n";
    switch (sim::choose(7)) {
      case 0: out += eol; break;
      case 1: out += "none a b" + eol; break;
      case 2: out += "  echo   x  y" + eol; want += "echo:x,y\r\n"; break;
      case 3: { std::string w(1 + sim::choose(60), (char)('a' + i)); out += "echo " + w + " " + std::to_string(who) + eol; want += "echo:" + w + "," + std::to_string(who) + "\r\n"; break; }
      case 4: out += "echo" + eol; want += "echo:\r\n"; break;
      case 5:
        if (sim::choose(3) == 2) { out += "nosuch" + eol + "echo late" + eol; bad = true; break; }
        [[fallthrough]];
      default: out += "slow " + std::to_string(i) + eol; want += "slow:" + std::to_string(i) + "\r\n";
    }
  }
  if (sim::choose(2)) { if (!t.put(out)) { } }
  else for (size_t i = 0; i < out.size();) { size_t k = 1 + sim::choose(9); if (!t.put(out.substr(i, k))) break; i += k; maybe_pause(300); }
  bool ok = t.until([&] { return !bad && t.in.size() >= want.size(); });
  SIM_CHECK(ok, "console-silent", "the console does not answer: %zu of %zu bytes", t.in.size(), want.size());
  if (bad || O->ending) SIM_CHECK(want.compare(0, t.in.size(), t.in) == 0, "wrong-answer", "the console answers '%s' instead of '%s'", t.in.c_str(), want.c_str());
  else SIM_CHECK(t.in == want, "wrong-answer", "the console answers '%s' instead of '%s'", t.in.c_str(), want.c_str());
  if (bad) sim::probe("unknown_command");
  if (bad || t.closed) return;
  // Commands whose handlers are replaced while we talk.
  for (int i = 0; i < 3 && sim::choose(2); ++i) {
    std::string name = "v" + std::to_string(sim::choose(3));
    int least;
    { sim::NoPreempt g; auto it = O->version.find(name); least = it == O->version.end() ? 0 : it->second; }
    if (!least) continue;
    t.in.clear();
    if (!t.put(name + "\n")) return;
    ok = t.until([&] { return t.in.size() >= 2 && t.in.substr(t.in.size() - 2) == "\r\n"; });
    SIM_CHECK(ok, "console-silent", "the console does not answer a registered command");
    if (t.closed) { SIM_CHECK(O->ending, "console-dropped", "the console drops a client that uses a registered command"); return; }
    int got = atoi(t.in.c_str());
    SIM_CHECK(got >= least, "stale-handler", "%s was replaced by version %d before the command was sent, version %d answers", name.c_str(), least, got);
    sim::probe("replaced_handler");
  }
  if (sim::choose(2)) {
    t.in.clear();
    int what = sim::choose(5);
    static const char *cmds[] = {"list\n", "list\n", "help\n", "help echo nosuch\n", "kill console nosuch\n"};
    std::map<std::string, std::shared_ptr<net::Listener>> before;
    std::set<std::string> left;
    { sim::NoPreempt g; before = O->nets; left = O->left; }
    if (!t.put(cmds[what])) return;
    if (!t.put("echo over\n")) return;
    ok = t.until([&] { return t.in.find("echo:over\r\n") != std::string::npos; });
    SIM_CHECK(ok, "console-silent", "the console does not answer list or help");
    if (t.closed) { SIM_CHECK(O->ending, "console-dropped", "the console drops a client that uses '%s'", cmds[what]); return; }
    std::string a = t.in.substr(0, t.in.find("echo:over\r\n"));
    if (O->ending) return;
    if (what < 2) {
      auto row = [&](const std::string &n) {
        size_t i = a.find("\t" + n + " ");
        return i == std::string::npos ? std::string() : a.substr(i + 1, a.find("\r\n", i) - i - 1);
      };
      SIM_CHECK(a.rfind("Total: ", 0) == 0, "wrong-answer", "list is answered '%s'", a.c_str());
      for (auto &[k, l] : before) {
        bool up = l->running();
        std::string r = row(k);
        if (up) SIM_CHECK(r.find(" maxcount: 4 ") != std::string::npos && r.find(" address: " + l->address().text()) != std::string::npos,
                          "list-lied", "%s is running but list says '%s'", k.c_str(), a.c_str());
        if (up) sim::probe("listed");
      }
      for (auto &k : left) SIM_CHECK(row(k).empty(), "list-lied", "%s was stopped before but list says '%s'", k.c_str(), a.c_str());
      std::string r = row("console");
      SIM_CHECK(r.rfind("console count: ", 0) == 0 && atoi(r.c_str() + 15) >= 1, "list-lied", "a client of the console is told '%s'", a.c_str());
    } else if (what == 2) {
      for (const char *x : {"echo\tsays it again\r\n", "list\t", "kill\t", "killall\t", "help\t"})
        SIM_CHECK(("\r\n" + a).find(std::string("\r\n") + x) != std::string::npos, "wrong-answer", "help is answered '%s'", a.c_str());
    } else if (what == 3) SIM_CHECK(a == "echo\tsays it again\r\n", "wrong-answer", "help echo is answered '%s'", a.c_str());
    else SIM_CHECK(a == "console nosuch fails\r\n", "wrong-answer", "killing the console is answered '%s'", a.c_str());
    sim::probe("list");
  }
  if (sim::choose(3) == 2) {
    std::map<std::string, std::shared_ptr<net::Listener>> of;
    const size_t most = 1 + sim::choose(3);
    { sim::NoPreempt g; O->kills = true; for (auto &[k, v] : O->nets) if (of.size() < most && O->killed.insert(k).second) of[k] = v; }
    if (!of.empty()) {
      std::string line = "kill";
      const bool odd = sim::choose(3) == 2;        // one that is not there, anywhere among them
      size_t at = odd ? sim::choose((uint32_t)of.size() + 1) : 99;
      for (auto &[k, l] : of) { if (at-- == 0) line += " nosuch"; line += " " + k; }
      if (odd && at == 0) line += " nosuch";
      t.in.clear();
      if (!t.put(line + "\n")) return;
      ok = t.until([&] { return t.in.size() >= 2 && t.in.substr(t.in.size() - 2) == "\r\n"; });
      SIM_CHECK(ok, "console-silent", "the console does not answer kill");
      if (t.closed) { SIM_CHECK(O->ending, "console-dropped", "the console drops a client that uses kill"); return; }
      std::set<std::string> failed;
      std::string answer = t.in.substr(0, t.in.size() - 2);
      if (answer != "ok" && answer != "failed") {
        size_t i = 0, j;
        while ((j = answer.find(' ', i)) != std::string::npos) { failed.insert(answer.substr(i, j - i)); i = j + 1; }
        SIM_CHECK(answer.substr(i) == "fails", "wrong-answer", "'%s' is answered '%s'", line.c_str(), answer.c_str());
        for (auto &n : failed) SIM_CHECK(of.count(n) || n == "nosuch", "wrong-answer", "'%s' is answered '%s'", line.c_str(), answer.c_str());
      }
      if (answer != "failed") {
        if (odd) SIM_CHECK(failed.count("nosuch"), "kill-lied", "'%s' is answered '%s'", line.c_str(), answer.c_str());
        for (auto &[k, l] : of) if (!failed.count(k)) SIM_CHECK(!l->running(), "kill-lied", "%s is running after '%s' was answered '%s'", k.c_str(), line.c_str(), answer.c_str());
        sim::probe(of.size() > 1 ? "killed_several" : "killed");
      }
    }
  }
  if (sim::choose(6) == 5) {
    // Everything else is stopped; the console itself can not be killed.
    std::map<std::string, std::shared_ptr<net::Listener>> before;
    { sim::NoPreempt g; before = O->nets; O->kills = true; }
    t.in.clear();
    if (!t.put(sim::choose(2) ? "killall\n" : "kill\n")) return;
    ok = t.until([&] { return t.in.size() >= 2 && t.in.substr(t.in.size() - 2) == "\r\n"; });
    SIM_CHECK(ok, "console-silent", "the console does not answer killall");
    if (t.closed) { SIM_CHECK(O->ending, "console-dropped", "the console drops a client that uses killall"); return; }
    SIM_CHECK(t.in == "ok\r\n", "wrong-answer", "killall is answered '%s'", t.in.c_str());
    for (auto &[k, l] : before) SIM_CHECK(!l->running(), "kill-lied", "%s is running after the console killed all", k.c_str());
    sim::probe("killall");
  }
  if (t.closed) SIM_CHECK(O->ending, "console-dropped", "the console drops a client");
}
}  // namespace

SCENARIO_STEPS(console, 20000000) {
  auto op = std::make_unique<OW>();
  O = op.get();
  OW &w = *op;
  sim::config().p_stall /= 4;
  quiet_logs();
  net_weather(true);
  simnet::cfg().p_accept = 0;
  if (simnet::cfg().cap < 300) simnet::cfg().cap = 300;
  auto reg = [](const std::string &n, int v) {
    ENGINE->register_console_handler(n, [v](const std::vector<std::string> &) { return std::to_string(v); }, "d");
    sim::NoPreempt g;
    O->version[n] = std::max(O->version[n], v);
  };
  ENGINE->register_console_handler("echo", [](const std::vector<std::string> &a) {
    std::string r = "echo:";
    for (size_t i = 0; i < a.size(); ++i) r += (i ? "," : "") + a[i];
    return r;
  }, "says it again");
  ENGINE->register_console_handler("none", [](const std::vector<std::string> &) { return std::string(); });
  // Has its work done by one of the kernel's executors, which are there as long as the console is.
  ENGINE->register_console_handler("slow", [bg = ENGINE->background_executor()](const std::vector<std::string> &a) {
    auto r = bg->submit([w = a.empty() ? std::string() : a[0]] { maybe_pause(2000); return "slow:" + w; });
    return r.get();
  });
  std::vector<std::unique_ptr<Thr>> ts;
  int n = 1 + sim::choose(3);
  for (int i = 0; i < n; ++i) ts.push_back(std::make_unique<Thr>([i] { client(i, 3001); }));
  SIM_CHECK(ENGINE->enable_console("127.0.0.1:3001"), "start-failed", "the console does not start");
  if (sim::choose(2)) ts.push_back(std::make_unique<Thr>([&] { for (int v = 1; v < 6; ++v) { reg("v" + std::to_string(sim::choose(3)), v); maybe_pause(3000); } }));
  if (sim::choose(2))
    ts.push_back(std::make_unique<Thr>([&] {
      int m = 1 + sim::choose(3);
      for (int i = 0; i < m; ++i) {
        net::setting_t st;
        st.address = "127.0.0.1:" + std::to_string(7000 + i);
        st.name = "srv" + std::to_string(i);
        st.mode = sim::choose(3) == 2 ? net::Mode::Select : net::Mode::Epoll;
        st.max_count = 4;
        st.default_count = 1;
        auto l = std::make_shared<net::Listener>(st);
        SIM_CHECK(l->start(), "start-failed", "listener did not start");
        { sim::NoPreempt g; w.nets[st.name] = l; }
        maybe_pause(5000);
        if (sim::choose(3) == 2) {
          bool alone;
          { sim::NoPreempt g; w.nets.erase(st.name); alone = !w.kills; }
          l->stop();
          sim::NoPreempt g;
          if (alone && !w.kills) w.left.insert(st.name);
        }
      }
    }));
  if (sim::choose(2)) ts.clear();
  else { sim::sleep_ns(1000ull * sim::choose(30000)); sim::probe("exit_while_in_use"); }
  // The process exits: what is static is destroyed, whatever is going on.
  { sim::NoPreempt g; w.ending = true; }
  if (!ts.empty() && ts.size() > (size_t)n) { while (ts.size() > (size_t)n) ts.pop_back(); }   // users of the engine itself are done before
  {
    decltype(w.nets) gone;
    { sim::NoPreempt g; gone.swap(w.nets); }
  }
  Peek::ptr().~shared_ptr();
  w.ended = true;
  ts.clear();
  SIM_CHECK(simnet::open_fds() == 0, "descriptor-leak", "%d descriptors are open at the end", simnet::open_fds());
}
