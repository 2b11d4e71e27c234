// Runner: forks one process per simulated run, aggregates, minimises, replays.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <map>

using namespace sim;

static double mono() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
template <typename T> static T *shared(size_t n = 1) {
  void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(99); }
  return static_cast<T *>(p);
}
static void pin(int cpu) {
  cpu_set_t all, s;
  CPU_ZERO(&all);
  if (sched_getaffinity(0, sizeof(all), &all)) return;
  int n = CPU_COUNT(&all);
  if (n <= 0) return;
  int want = cpu % n, k = 0;
  for (int i = 0; i < CPU_SETSIZE; ++i)
    if (CPU_ISSET(i, &all) && k++ == want) {
      CPU_ZERO(&s);
      CPU_SET(i, &s);
      sched_setaffinity(0, sizeof(s), &s);
      return;
    }
}
static uint64_t mix64(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ull + b * 0xc2b2ae3d27d4eb4full + 0x165667b19e3779f9ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static void reset_block(ResultBlock *r) {
  memset((void *)r, 0, offsetof(ResultBlock, trace));
  r->trace_pos = 0;
}

// One run in a forked child.  Returns 1 ok, 2 violation, 3 internal error.
static int run_one(const RunSpec &spec, ResultBlock *r, double limit_s = 240) {
  reset_block(r);
  r->nchoices = 0;
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); return 3; }
  if (pid == 0) run_child(spec, r);
  int st;
  double t0 = mono();
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    double left = limit_s - (mono() - t0);
    if (left <= 0) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      snprintf(r->cls, sizeof(r->cls), "internal-error");
      snprintf(r->msg, sizeof(r->msg), "run exceeded %.0f s of real time", limit_s);
      return 3;
    }
    sigset_t set;
    sigemptyset(&set);
    sigaddset(&set, SIGCHLD);
    struct timespec ts{1, 0};
    sigtimedwait(&set, nullptr, &ts);
  }
  int s = r->status;
  if (s == 0) {
    snprintf(r->cls, sizeof(r->cls), "internal-error");
    snprintf(r->msg, sizeof(r->msg), "run process ended without a verdict (wait status %d)", st);
    return 3;
  }
  return s;
}

static std::string demangle_all(const std::string &s) {
  std::string out, tok;
  auto flush = [&] {
    if (tok.size() > 2 && tok[0] == '_' && tok[1] == 'Z') {
      int st;
      char *d = abi::__cxa_demangle(tok.c_str(), nullptr, nullptr, &st);
      if (!st && d) out += d; else out += tok;
      free(d);
    } else out += tok;
    tok.clear();
  };
  for (char c : s) {
    if (isalnum((unsigned char)c) || c == '_' || c == '.') tok += c;
    else { flush(); out += c; }
  }
  flush();
  return out;
}
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::vector<std::string> trace_lines(ResultBlock *r, size_t maxl) {
  std::string s;
  uint64_t n = r->trace_pos, cap = sizeof(r->trace);
  uint64_t b = n > cap ? n - cap : 0;
  for (uint64_t i = b; i < n; ++i) s += r->trace[i % cap];
  std::vector<std::string> v;
  size_t p = 0;
  while (p < s.size()) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) e = s.size();
    v.push_back(s.substr(p, e - p));
    p = e + 1;
  }
  if (v.size() > maxl) v.erase(v.begin(), v.end() - maxl);
  return v;
}
static void write_replay(const char *path, const RunSpec &spec, ResultBlock *r,
                         const std::vector<Choice> &cs, uint64_t orig, int tries) {
  FILE *f = fopen(path, "w");
  if (!f) { perror(path); return; }
  fprintf(f, "{\"scenario\": %s,\n \"seed\": %llu,\n \"class\": %s,\n \"signature\": %s,\n",
          jstr(spec.scn->name).c_str(), (unsigned long long)spec.seed,
          jstr(r->cls).c_str(), jstr(demangle_all(r->sig)).c_str());
  fprintf(f, " \"hash\": \"%016llx\",\n \"steps\": %llu,\n \"switches\": %llu,\n",
          (unsigned long long)r->hash, (unsigned long long)r->steps, (unsigned long long)r->switches);
  fprintf(f, " \"choices_before_minimisation\": %llu,\n \"minimiser_runs\": %d,\n",
          (unsigned long long)orig, tries);
  fprintf(f, " \"message\": %s,\n \"choices\": [", jstr(demangle_all(r->msg)).c_str());
  for (size_t i = 0; i < cs.size(); ++i)
    fprintf(f, "%s[%llu,%u,%u]", i ? "," : "", (unsigned long long)cs[i].ci, cs[i].kind, cs[i].val);
  fprintf(f, "],\n \"trace\": [\n");
  auto tl = trace_lines(r, 400);
  for (size_t i = 0; i < tl.size(); ++i)
    fprintf(f, "  %s%s\n", jstr(tl[i]).c_str(), i + 1 < tl.size() ? "," : "");
  fprintf(f, " ]}\n");
  fclose(f);
}
static bool read_replay(const char *path, std::string &scn, uint64_t &seed,
                        std::string &cls, std::string &hash, std::vector<Choice> &cs) {
  FILE *f = fopen(path, "r");
  if (!f) { perror(path); return false; }
  std::string s;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof(buf), f))) s.append(buf, n);
  fclose(f);
  auto str = [&](const char *k) {
    std::string key = std::string("\"") + k + "\": \"";
    size_t p = s.find(key);
    if (p == std::string::npos) return std::string();
    p += key.size();
    return s.substr(p, s.find('"', p) - p);
  };
  scn = str("scenario"); cls = str("class"); hash = str("hash");
  size_t p = s.find("\"seed\": ");
  if (p == std::string::npos) return false;
  seed = strtoull(s.c_str() + p + 8, nullptr, 10);
  p = s.find("\"choices\": [");
  if (p == std::string::npos) return false;
  const char *q = s.c_str() + p + 12;
  while (*q && *q != ']') {
    if (*q == '[') {
      Choice c{};
      char *e;
      c.ci = strtoull(q + 1, &e, 10);
      c.kind = strtoul(e + 1, &e, 10);
      c.val = strtoul(e + 1, &e, 10);
      cs.push_back(c);
      q = e + 1;
    } else ++q;
  }
  return true;
}

// Same class, and for memory errors, crashes and asserts the same site.
static bool same_violation(const ResultBlock *a, const std::string &cls, const std::string &sig) {
  if (cls != a->cls) return false;
  if (cls == "use-after-free" || cls == "heap-overflow" || cls == "crash" || cls == "assert" ||
      cls == "terminate")
    return sig.substr(0, sig.find('|', cls.size() + 1)) ==
           std::string(a->sig).substr(0, std::string(a->sig).find('|', cls.size() + 1));
  return true;
}

static std::vector<Choice> minimise(RunSpec spec, ResultBlock *r, std::vector<Choice> cs,
                                    const std::string &cls, const std::string &sig,
                                    double budget, int &tries) {
  double t0 = mono();
  tries = 0;
  auto test = [&](const std::vector<Choice> &c) {
    ++tries;
    spec.replay = true;
    spec.over = c.data();
    spec.nover = c.size();
    return run_one(spec, r) == 2 && same_violation(r, cls, sig);
  };
  // adopt: what actually took effect in the failing run (drops ignored entries)
  auto adopt = [&](std::vector<Choice> &c) {
    if (!r->truncated) c.assign(r->choices, r->choices + r->nchoices);
  };
  // 1. by kind: drop all of one kind
  for (uint32_t k : {K_STALL, K_LEAP, K_PICK, K_SCHED, K_OP}) {
    std::vector<Choice> c;
    for (auto &x : cs) if (x.kind != k) c.push_back(x);
    if (c.size() < cs.size() && test(c)) { cs = c; adopt(cs); }
  }
  // 2. ddmin
  size_t n = 2;
  while (cs.size() >= 2 && mono() - t0 < budget) {
    size_t chunk = (cs.size() + n - 1) / n;
    bool red = false;
    for (size_t b = 0; b < cs.size() && mono() - t0 < budget; b += chunk) {
      std::vector<Choice> c(cs.begin(), cs.begin() + b);
      c.insert(c.end(), cs.begin() + std::min(cs.size(), b + chunk), cs.end());
      if (test(c)) {
        cs = c;
        if (r->nchoices < cs.size()) adopt(cs);
        n = std::max<size_t>(2, n - 1);
        red = true;
        break;
      }
    }
    if (!red) {
      if (n >= cs.size()) break;
      n = std::min(cs.size(), n * 2);
    }
  }
  // 3. shrink values
  for (size_t i = 0; i < cs.size() && mono() - t0 < budget; ++i) {
    if (cs[i].kind != K_OP && cs[i].kind != K_STALL) continue;
    while (cs[i].val > 1 && mono() - t0 < budget) {
      auto c = cs;
      c[i].val /= 2;
      if (!test(c)) break;
      cs = c;
    }
  }
  return cs;
}

struct WorkerStat {
  uint64_t runs, ok, steps, switches, syncs, events, sim_ns, violations, known, foreign;
  uint64_t faults[F_COUNT], runs_with_fault[F_COUNT];
  struct { char name[40]; uint64_t n, runs; } probes[kMaxProbes];
  int nprobes;
  uint64_t max_threads, max_steps;
  char known_sig[8][256]; int nknown;
};
struct Shared {
  volatile int stop;
  volatile int found;            // 0 none, 1 violation claimed, 2 internal error
  uint64_t index, seed;
  char scn[64], cls[96], sig[256], msg[4096];
};

static std::vector<std::string> split(const std::string &s, char d) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p <= s.size()) {
    size_t e = s.find(d, p);
    if (e == std::string::npos) e = s.size();
    if (e > p) v.push_back(s.substr(p, e - p));
    p = e + 1;
  }
  return v;
}

int main(int argc, char **argv) {
  std::map<std::string, std::string> o;
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  auto num = [&](const char *k, double d) { return o.count(k) ? atof(o[k].c_str()) : d; };
  sigset_t chld;
  sigemptyset(&chld);
  sigaddset(&chld, SIGCHLD);
  sigprocmask(SIG_BLOCK, &chld, nullptr);
  init_process();

  if (mode == "list") {
    for (int i = 0; i < scenario_count(); ++i) puts(scenario_at(i)->name);
    return 0;
  }
  if (mode == "one") {   // single seed, verbose
    ResultBlock *r = shared<ResultBlock>();
    pin(0);
    RunSpec sp{find_scenario(o["--scenario"].c_str()), strtoull(o["--seed"].c_str(), 0, 10),
               false, nullptr, 0, o.count("--verbose") > 0};
    if (!sp.scn) { fprintf(stderr, "no scenario\n"); return 3; }
    double t0 = mono();
    int st = run_one(sp, r);
    std::vector<Choice> again;
    if (o.count("--as-replay")) {   // the recorded choices of this seed, replayed
      again.assign(r->choices, r->choices + r->nchoices);
      sp.replay = true; sp.over = again.data(); sp.nover = again.size();
      st = run_one(sp, r);
    }
    printf("status %d hash %016llx steps %llu switches %llu choices %llu sim_ms %.3f threads %d wall %.4f\n%s\n%s\n", st,
           (unsigned long long)r->hash, (unsigned long long)r->steps, (unsigned long long)r->switches,
           (unsigned long long)r->nchoices, r->sim_ns / 1e6, r->nthreads, mono() - t0, r->cls,
           demangle_all(r->msg).c_str());
    for (int f = 0; f < F_COUNT; ++f) if (r->faults[f]) printf("  %s=%llu", fault_name(f), (unsigned long long)r->faults[f]);
    for (int f = 0; f < r->nprobes; ++f) printf("  probe:%s=%llu", r->probes[f].name, (unsigned long long)r->probes[f].n);
    puts("");
    if (o.count("--trace")) for (auto &l : trace_lines(r, num("--trace", 100))) puts(l.c_str());
    return st == 1 ? 0 : st == 2 ? 1 : 3;
  }
  if (mode == "replay") {
    std::string scn, cls, hash;
    uint64_t seed;
    std::vector<Choice> cs;
    if (!read_replay(o["--file"].c_str(), scn, seed, cls, hash, cs)) return 3;
    RunSpec sp{find_scenario(scn.c_str()), seed, true, cs.data(), cs.size(), o.count("--verbose") > 0};
    if (!sp.scn) { fprintf(stderr, "no scenario %s\n", scn.c_str()); return 3; }
    ResultBlock *r = shared<ResultBlock>();
    pin(0);
    int st = run_one(sp, r);
    char h[32];
    snprintf(h, sizeof(h), "%016llx", (unsigned long long)r->hash);
    printf("replay status=%d class=%s hash=%s expected_class=%s expected_hash=%s\n%s\n", st,
           r->cls, h, cls.c_str(), hash.c_str(), demangle_all(r->msg).c_str());
    if (st == 2 && cls == r->cls && (hash == h || cls == "wedged")) return 1;
    if (st == 1) return 0;
    return 3;
  }
  if (mode != "explore") {
    fprintf(stderr, "usage: simrun list|one|replay|explore ...\n");
    return 3;
  }

  // ---- explore
  auto names = split(o["--scenarios"], ',');
  std::vector<const Scenario *> scs;
  for (auto &n : names) {
    auto *s = find_scenario(n.c_str());
    if (!s) { fprintf(stderr, "no scenario %s\n", n.c_str()); return 3; }
    scs.push_back(s);
  }
  uint64_t base = strtoull(o["--seed"].c_str(), 0, 10);
  uint64_t runs = (uint64_t)num("--runs", 1000), first = (uint64_t)num("--first", 0);
  double tmax = num("--time", 60);
  int jobs = (int)num("--jobs", 8);
  int twice = (int)num("--determinism", 64);   // every Nth run is executed twice
  auto known = split(o["--known"], ';');
  auto foreign = split(o["--ignore"], ',');     // classes that belong to other properties
  Shared *sh = shared<Shared>();
  WorkerStat *ws = shared<WorkerStat>(jobs);
  uint64_t *hashes = shared<uint64_t>(runs + 1);
  double t0 = mono();
  std::vector<pid_t> pids;
  for (int j = 0; j < jobs; ++j) {
    pid_t p = fork();
    if (p == 0) {
      pin(j);
      ResultBlock *r = shared<ResultBlock>();
      WorkerStat &w = ws[j];
      for (uint64_t i = j; i < runs && !sh->stop; i += jobs) {
        if (mono() - t0 > tmax) break;
        uint64_t idx = first + i;
        const Scenario *s = scs[idx % scs.size()];
        RunSpec sp{s, mix64(base, idx), false, nullptr, 0, false};
        int st = run_one(sp, r);
        w.runs++;
        if (st == 3) {
          if (!__sync_lock_test_and_set(&sh->found, 2)) {
            sh->index = idx; sh->seed = sp.seed;
            snprintf(sh->scn, sizeof(sh->scn), "%s", s->name);
            memcpy(sh->msg, r->msg, sizeof(sh->msg));
            snprintf(sh->cls, sizeof(sh->cls), "%s", r->cls);
          }
          sh->stop = 1;
          break;
        }
        if (st == 2) {
          w.violations++;
          bool kn = false;
          std::string dsig = demangle_all(r->sig) + "@" + s->name;
          for (auto &k : known) if (dsig.find(k) != std::string::npos) {
            kn = true;
            bool have = false;
            for (int q = 0; q < w.nknown; ++q) if (!strcmp(w.known_sig[q], k.c_str())) have = true;
            if (!have && w.nknown < 8) snprintf(w.known_sig[w.nknown++], 256, "%s", k.c_str());
          }
          bool fo = std::find(foreign.begin(), foreign.end(), r->cls) != foreign.end();
          if (kn) w.known++;
          else if (fo) w.foreign++;
          else {
            if (!__sync_lock_test_and_set(&sh->found, 1)) {
              sh->index = idx; sh->seed = sp.seed;
              snprintf(sh->scn, sizeof(sh->scn), "%s", s->name);
              memcpy(sh->msg, r->msg, sizeof(sh->msg));
              memcpy(sh->sig, r->sig, sizeof(sh->sig));
              snprintf(sh->cls, sizeof(sh->cls), "%s", r->cls);
            }
            if (o.count("--keep-going")) { printf("V %s seed %llu %s | %s\n", s->name, (unsigned long long)sp.seed, demangle_all(r->sig).c_str(), std::string(r->msg).substr(0, 300).c_str()); fflush(stdout); }
            else { sh->stop = 1; break; }
          }
        } else w.ok++;
        hashes[i] = r->sched_hash ? r->sched_hash : 1;
        w.steps += r->steps; w.switches += r->switches; w.syncs += r->syncs;
        w.events += r->events; w.sim_ns += r->sim_ns;
        w.max_threads = std::max<uint64_t>(w.max_threads, r->nthreads);
        w.max_steps = std::max<uint64_t>(w.max_steps, r->steps);
        for (int f = 0; f < F_COUNT; ++f) { w.faults[f] += r->faults[f]; w.runs_with_fault[f] += r->faults[f] != 0; }
        for (int q = 0; q < r->nprobes; ++q) {
          int z = 0;
          for (; z < w.nprobes; ++z) if (!strcmp(w.probes[z].name, r->probes[q].name)) break;
          if (z == w.nprobes) { if (z == kMaxProbes) continue; w.nprobes++; memcpy(w.probes[z].name, r->probes[q].name, 40); }
          w.probes[z].n += r->probes[q].n; w.probes[z].runs++;
        }
        if (twice && st == 1 && (i / jobs) % twice == 0) {
          uint64_t h = r->hash, stp = r->steps;
          int s2 = run_one(sp, r);
          if (s2 != st || r->hash != h || r->steps != stp) {
            if (!__sync_lock_test_and_set(&sh->found, 2)) {
              sh->index = idx; sh->seed = sp.seed;
              snprintf(sh->scn, sizeof(sh->scn), "%s", s->name);
              snprintf(sh->cls, sizeof(sh->cls), "nondeterminism");
              snprintf(sh->msg, sizeof(sh->msg), "two executions of one seed differ (status %d/%d hash %016llx/%016llx steps %llu/%llu)",
                       st, s2, (unsigned long long)h, (unsigned long long)r->hash, (unsigned long long)stp, (unsigned long long)r->steps);
            }
            sh->stop = 1;
            break;
          }
        }
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  for (auto p : pids) { int st; waitpid(p, &st, 0); }
  double wall = mono() - t0;

  // aggregate
  WorkerStat T;
  memset(&T, 0, sizeof(T));
  std::map<std::string, std::pair<uint64_t, uint64_t>> probes;
  std::map<std::string, int> ks;
  for (int j = 0; j < jobs; ++j) {
    auto &w = ws[j];
    T.runs += w.runs; T.ok += w.ok; T.steps += w.steps; T.switches += w.switches; T.syncs += w.syncs;
    T.events += w.events; T.sim_ns += w.sim_ns; T.violations += w.violations; T.known += w.known; T.foreign += w.foreign;
    T.max_threads = std::max(T.max_threads, w.max_threads); T.max_steps = std::max(T.max_steps, w.max_steps);
    for (int f = 0; f < F_COUNT; ++f) { T.faults[f] += w.faults[f]; T.runs_with_fault[f] += w.runs_with_fault[f]; }
    for (int q = 0; q < w.nprobes; ++q) { auto &x = probes[w.probes[q].name]; x.first += w.probes[q].n; x.second += w.probes[q].runs; }
    for (int q = 0; q < w.nknown; ++q) ks[w.known_sig[q]]++;
  }
  std::vector<uint64_t> hv;
  for (uint64_t i = 0; i < runs; ++i) if (hashes[i]) hv.push_back(hashes[i]);
  std::sort(hv.begin(), hv.end());
  uint64_t distinct = std::unique(hv.begin(), hv.end()) - hv.begin();

  FILE *f = o.count("--out") ? fopen(o["--out"].c_str(), "w") : stdout;
  if (!f) { perror("out"); return 3; }
  fprintf(f, "{\"runs\": %llu, \"ok\": %llu, \"wall_s\": %.2f, \"distinct_interleavings\": %llu, \"steps\": %llu, "
          "\"context_switches\": %llu, \"sync_points\": %llu, \"events\": %llu, \"sim_seconds\": %.6f, "
          "\"max_threads\": %llu, \"max_steps\": %llu, \"violations\": %llu, \"known\": %llu, \"foreign\": %llu,\n \"faults\": {",
          (unsigned long long)T.runs, (unsigned long long)T.ok, wall, (unsigned long long)distinct,
          (unsigned long long)T.steps, (unsigned long long)T.switches, (unsigned long long)T.syncs,
          (unsigned long long)T.events, T.sim_ns / 1e9, (unsigned long long)T.max_threads,
          (unsigned long long)T.max_steps, (unsigned long long)T.violations, (unsigned long long)T.known, (unsigned long long)T.foreign);
  bool c = false;
  for (int k = 0; k < F_COUNT; ++k) if (T.faults[k]) {
    fprintf(f, "%s\"%s\": [%llu, %llu]", c ? ", " : "", fault_name(k), (unsigned long long)T.faults[k], (unsigned long long)T.runs_with_fault[k]);
    c = true;
  }
  fprintf(f, "},\n \"probes\": {");
  c = false;
  for (auto &p : probes) { fprintf(f, "%s%s: [%llu, %llu]", c ? ", " : "", jstr(p.first).c_str(), (unsigned long long)p.second.first, (unsigned long long)p.second.second); c = true; }
  fprintf(f, "},\n \"known_hit\": [");
  c = false;
  for (auto &k : ks) { fprintf(f, "%s%s", c ? ", " : "", jstr(k.first).c_str()); c = true; }
  fprintf(f, "]");
  int rc = 0;
  if (sh->found == 2) {
    rc = 3;
    fprintf(f, ",\n \"error\": {\"scenario\": %s, \"index\": %llu, \"seed\": %llu, \"class\": %s, \"message\": %s}",
            jstr(sh->scn).c_str(), (unsigned long long)sh->index, (unsigned long long)sh->seed,
            jstr(sh->cls).c_str(), jstr(demangle_all(sh->msg)).c_str());
  } else if (sh->found == 1) {
    // gate: same seed twice, then minimise
    pin(0);
    ResultBlock *r = shared<ResultBlock>();
    RunSpec sp{find_scenario(sh->scn), sh->seed, false, nullptr, 0, false};
    int s1 = run_one(sp, r);
    uint64_t h1 = r->hash;
    std::string cls = r->cls, sig = r->sig;
    int s2 = run_one(sp, r);
    if (s1 != 2 || s2 != 2 || (h1 != r->hash && cls != "wedged") || cls != sh->cls) {
      rc = 3;
      fprintf(f, ",\n \"error\": {\"scenario\": %s, \"seed\": %llu, \"class\": \"unreproducible\", \"message\": %s}",
              jstr(sh->scn).c_str(), (unsigned long long)sh->seed, jstr(sh->msg).c_str());
    } else {
      std::vector<Choice> cs(r->choices, r->choices + r->nchoices);
      uint64_t orig = cs.size();
      int tries = 0;
      std::string path = o.count("--replay") ? o["--replay"] : "replay.json";
      // replaying the full list must already reproduce
      sp.replay = true; sp.over = cs.data(); sp.nover = cs.size();
      int s3 = run_one(sp, r);
      if (s3 != 2 || cls != r->cls) {
        rc = 3;
        fprintf(f, ",\n \"error\": {\"scenario\": %s, \"seed\": %llu, \"class\": \"unreplayable\", \"message\": %s}",
                jstr(sh->scn).c_str(), (unsigned long long)sh->seed, jstr(sh->msg).c_str());
      } else {
        cs = minimise(sp, r, cs, cls, sig, num("--min-time", 40), tries);
        sp.over = cs.data(); sp.nover = cs.size();
        run_one(sp, r);
        write_replay(path.c_str(), sp, r, cs, orig, tries);
        rc = 1;
        fprintf(f, ",\n \"violation\": {\"scenario\": %s, \"index\": %llu, \"seed\": %llu, \"class\": %s, \"signature\": %s, \"message\": %s, "
                "\"replay\": %s, \"choices\": %zu, \"choices_before\": %llu, \"minimiser_runs\": %d}",
                jstr(sh->scn).c_str(), (unsigned long long)sh->index, (unsigned long long)sh->seed,
                jstr(r->cls).c_str(), jstr(demangle_all(r->sig)).c_str(), jstr(demangle_all(r->msg)).c_str(),
                jstr(path).c_str(), cs.size(), (unsigned long long)orig, tries);
      }
    }
  }
  fprintf(f, "}\n");
  if (f != stdout) fclose(f);
  return rc;
}
