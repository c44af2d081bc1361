// Driver: batches of seeded runs, replay of a recorded run, minimisation.
#include "scen.h"
#include "huge.h"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

extern "C" const char *__asan_default_options() {
  return "detect_stack_use_after_return=0:detect_leaks=0:quarantine_size_mb=4:use_sigaltstack=1:"
         "symbolize=0:allocator_may_return_null=1:max_malloc_fill_size=0:exitcode=10:log_path=/dev/null:"
         "handle_abort=0:check_initialization_order=0:detect_container_overflow=0:malloc_context_size=1";
}

struct Result {
  bool viol = false;
  std::string cls, detail, kind;
  u64 hash = 0, ihash = 0;
  Plan rec;  // explicit plan of what happened
};
static Plan *running;
static int result_fd = -1;
static std::string crash_path;       // where the death callback writes the plan
static std::function<void()> on_death;
static bool verbose, replaying;

static std::string kind_of(const Plan &p, int id) {
  for (auto &i : p.items) if (i.id == id) return i.kind;
  return id >= 900000 ? "init" : "";
}
static Plan recorded() {
  Plan r = *running;
  r.explicit_mode = true;
  r.faults = W->fired;
  r.switches = W->switches;
  return r;
}
static Result harvest() {
  Result r;
  r.viol = W->viol.set;
  r.cls = W->viol.cls;
  r.detail = W->viol.detail;
  r.kind = kind_of(*running, W->viol.item);
  r.hash = W->hash;
  r.ihash = W->ihash;
  r.rec = recorded();
  return r;
}
static std::string one_line(std::string s) {
  for (auto &c : s) if (c == '\n' || c == '\r') c = ' ';
  for (auto &c : s) if ((u8)c < 32) c = '?';
  return s;
}
static std::string save_result(const Result &r) {
  return r.rec.save() + "violation " + one_line(r.cls) + "\ndetail " + one_line(r.detail) + fmt("\nhash %016llx\n", (unsigned long long)r.hash);
}
static void write_file(const std::string &path, const std::string &s) {
  std::string tmp = path + ".tmp";
  FILE *f = fopen(tmp.c_str(), "w");
  if (!f) { perror(path.c_str()); _exit(3); }
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
  rename(tmp.c_str(), path.c_str());
}
static std::string read_file(const std::string &path) {
  std::ifstream f(path, std::ios::binary);
  if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(3); }
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static void emit(const Result &r) {
  if (result_fd < 0) return;
  std::string s = save_result(r);
  if (!r.viol) s += "none\n";
  s += "kind " + r.kind + "\n";
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(result_fd, s.data() + o, s.size() - o);
    if (n <= 0) _exit(4);
    o += (size_t)n;
  }
}
static void report_text(const char *);
static std::string asan_bug;
static void death() {
  if (!W || !running) return;
  if (!W->viol.set) {
    const char *d = __asan_get_report_description();
    std::string bug = d && *d ? d : "crash";
    W->viol.set = true;
    W->viol.cls = "memory:" + bug;
    bool wr = __asan_get_report_access_type();
    W->viol.detail = fmt("%s, %s of %zu bytes in %s", bug.c_str(), wr ? "write" : "read", __asan_get_report_access_size(),
                         cur && cur->item ? cur->item->kind.c_str() : "?");
    W->viol.item = cur && cur->item ? cur->item->id : -1;
    // steps not yet accounted are part of the hash of the failure point
    if (cur) W->hash = hmix(W->hash, now_yields());
    W->hash = hmix(W->hash, std::hash<std::string>()(W->viol.cls));
  }
  Result r = harvest();
  if (verbose) for (auto &l : W->log) printf("  %s\n", l.c_str());
  if (result_fd >= 0) emit(r);
  if (!crash_path.empty()) write_file(crash_path, save_result(r));
  if (on_death) on_death();
  if (replaying) {
    printf("class %s\ndetail %s\nhash %016llx\n", r.cls.c_str(), one_line(r.detail).c_str(), (unsigned long long)r.hash);
    fflush(stdout);
  }
  _exit(10);
}
static void sigdie(int) { death(); _exit(11); }
// A run needs milliseconds; one that needs this much processor time does not come back.
static const int CPU_LIMIT = 12;
static void cpu_limit(int s) {
  itimerval t{{0, 0}, {s, 0}};
  setitimer(ITIMER_PROF, &t, nullptr);
}
// part of a huge request is done
void progress() {
  cpu_limit(CPU_LIMIT);
  if (unsigned left = alarm(0)) alarm(std::max(left, 60u));
}
static void sigcpu(int) {
  if (W && !W->viol.set) {
    W->viol.set = true;
    W->viol.cls = "hang";
    W->viol.detail = fmt("call does not return within %d s of processor time", W->plan->variant == "plain" ? 150 : CPU_LIMIT);
    W->viol.item = cur && cur->item ? cur->item->id : -1;
  }
  death();
  _exit(11);
}

static void add(Stats &a, const Stats &b) {
  for (auto &x : b.fired) a.fired[x.first] += x.second;
  for (auto &x : b.offered) a.offered[x.first] += x.second;
  for (auto &x : b.probes) a.probes[x.first] += x.second;
  for (auto &x : b.ops) a.ops[x.first] += x.second;
  a.yields += b.yields; a.switches += b.switches; a.syscalls += b.syscalls;
  a.mallocs += b.mallocs; a.calls += b.calls; a.simtime_ms += b.simtime_ms;
}
static Result run(Plan &p, Stats *st = nullptr, std::vector<std::string> *log = nullptr) {
  running = &p;
  world_begin(p);
  W->strip_trace = !log && !verbose;
  if (p.variant != "plain") cpu_limit(CPU_LIMIT);  // huge buffers have limits of their own
  run_plan();
  cpu_limit(0);
  Result r = harvest();
  W->st.simtime_ms = W->now;
  if (st) add(*st, W->st);
  if (log) *log = W->log;
  if (verbose) for (auto &l : W->log) printf("  %s\n", l.c_str());
  world_end();
  running = nullptr;
  return r;
}
static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((u8)c < 32 || (u8)c > 126) r += fmt("\\u%04x", (u8)c);
    else r += c;
  }
  return r + "\"";
}
static std::string jmap(const std::map<std::string, u64> &m) {
  std::string s = "{";
  for (auto &x : m) s += (s.size() > 1 ? "," : "") + jstr(x.first) + ":" + std::to_string(x.second);
  return s + "}";
}
static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec / 1e9;
}

static int batch(int argc, char **argv) {
  if (argc < 10) return 3;
  std::string prop = argv[2], variant = argv[3];
  u64 seed = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10), stride = strtoull(argv[6], 0, 10);
  double limit = atof(argv[7]);
  std::string state = argv[8], dir = argv[9];
  Stats st;
  u64 runs = 0, nontriv = 0, audits = 0;
  std::unordered_set<u64> hashes, ihashes;
  std::vector<std::string> samples, viols;
  double t0 = now(), last = t0;
  u64 *curseed = (u64 *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  (void)curseed;
  std::string mismatch;
  double slowest = 0;
  u64 s = seed;
  auto dump = [&](bool done) {
    std::string hx;
    static const char H[] = "0123456789abcdef";
    for (u32 i = 1; i <= cov_n; i += 4) {
      int v = 0;
      for (u32 k = 0; k < 4 && i + k <= cov_n; k++) v |= (cov_map[i + k] != 0) << k;
      hx += H[v];
    }
    std::string j = fmt("{\"runs\":%llu,\"nontrivial\":%llu,\"audits\":%llu,\"next_seed\":%llu,\"done\":%s,\"wall\":%.3f,\"edges\":%u,\"edges_hit\":%u,",
                        (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)audits, (unsigned long long)s, done ? "true" : "false", now() - t0, cov_n, cov_hit);
    j += "\"cov\":" + jstr(hx) + ",";
    j += "\"fired\":" + jmap(st.fired) + ",\"offered\":" + jmap(st.offered) + ",\"probes\":" + jmap(st.probes) + ",\"ops\":" + jmap(st.ops);
    j += fmt(",\"yields\":%llu,\"switches\":%llu,\"syscalls\":%llu,\"mallocs\":%llu,\"calls\":%llu,\"simtime_ms\":%llu", (unsigned long long)st.yields, (unsigned long long)st.switches,
             (unsigned long long)st.syscalls, (unsigned long long)st.mallocs, (unsigned long long)st.calls, (unsigned long long)st.simtime_ms);
    j += fmt(",\"slowest\":%.3f", slowest);
    j += ",\"mismatch\":" + jstr(mismatch) + ",\"viols\":[";
    for (size_t i = 0; i < viols.size(); i++) j += (i ? "," : "") + jstr(viols[i]);
    j += "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) j += (i ? "," : "") + jstr(samples[i]);
    j += "]}\n";
    write_file(state, j);
    if (done || true) {
      std::string b;
      for (u64 h : hashes) b.append((char *)&h, 8);
      write_file(state + ".h", b);
      b.clear();
      for (u64 h : ihashes) b.append((char *)&h, 8);
      write_file(state + ".i", b);
    }
  };
  on_death = [&] { viols.push_back(crash_path); s += stride; runs++; dump(false); };
  dump(false);
  for (u64 i = 0; i < count; i++, s += stride) {
    if (now() - t0 > limit) break;
    Plan p;
    p.prop = prop;
    p.variant = variant;
    p.seed = s;
    gen_plan(p);
    crash_path = dir + fmt("/viol-%s-%llu.replay", variant.c_str(), (unsigned long long)s);
    alarm(variant == "plain" ? 900 : 120);
    Stats one;
    double r0 = now();
    Result r = run(p, &one);
    slowest = std::max(slowest, now() - r0);
    if (getenv("SIM_SLOW") && now() - r0 > 1) fprintf(stderr, "slow %llu %s %.1f\n", (unsigned long long)p.seed, p.variant.c_str(), now() - r0);
    add(st, one);
    runs++;
    bool nt = one.switches > 0;
    for (auto &f : one.fired) nt |= f.second > 0;
    for (auto f : {"nontrivial"}) nt |= one.probes.count(f) > 0;
    if (nt && hashes.insert(r.hash).second) nontriv++;
    if (one.switches) ihashes.insert(r.ihash);
    if (r.viol) {
      write_file(crash_path, save_result(r));
      viols.push_back(crash_path);
      if (viols.size() >= 3) { s += stride; break; }
      continue;
    }
    // determinism audit: the recorded faults and switches alone reproduce the run
    if (variant == "plain" ? runs % 8 == 0 : runs <= 3 || runs % 64 == 0) {
      Plan e = r.rec;
      Result r2 = run(e);
      audits++;
      if (r2.hash != r.hash) mismatch = fmt("seed %llu: %016llx, replayed %016llx", (unsigned long long)s, (unsigned long long)r.hash, (unsigned long long)r2.hash);
    }
    if (samples.size() < 3 && nt) {
      std::string x = r.rec.save();
      if (x.size() < 3000 || runs > 50) samples.push_back(x.substr(0, 3000) + fmt("hash %016llx\n", (unsigned long long)r.hash));
    }
    if (now() - last > 3) { dump(false); last = now(); }
  }
  dump(true);
  return viols.empty() ? 0 : 1;
}

// ---------------------------------------------------------------- minimising
static bool parse_result(const std::string &t, Result &r) {
  std::string err;
  size_t v = t.find("\nviolation ");
  if (v == std::string::npos) return false;
  r.rec = Plan();
  if (!r.rec.load(t.substr(0, v + 1), err)) { fprintf(stderr, "%s\n", err.c_str()); return false; }
  std::istringstream is(t.substr(v + 1));
  std::string l;
  r.viol = true;
  while (std::getline(is, l)) {
    if (l.compare(0, 10, "violation ") == 0) r.cls = l.substr(10);
    else if (l.compare(0, 7, "detail ") == 0) r.detail = l.substr(7);
    else if (l.compare(0, 5, "hash ") == 0) r.hash = strtoull(l.c_str() + 5, 0, 16);
    else if (l.compare(0, 5, "kind ") == 0) r.kind = l.substr(5);
    else if (l == "none") r.viol = false;
  }
  return true;
}
static Result attempt(const Plan &p) {
  int fd[2];
  Result r;
  if (pipe(fd)) { perror("pipe"); exit(3); }
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) {
    close(fd[0]);
    result_fd = fd[1];
    crash_path.clear();
    on_death = nullptr;
    alarm(p.variant == "plain" ? 300 : 60);
    Plan q = p;
    Result x = run(q);
    emit(x);
    _exit(0);
  }
  close(fd[1]);
  std::string t;
  char b[65536];
  ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0) t.append(b, (size_t)n);
  close(fd[0]);
  int ws;
  waitpid(c, &ws, 0);
  parse_result(t, r);
  return r;
}
static int minimise(int argc, char **argv) {
  if (argc < 5) return 3;
  Result best;
  if (!parse_result(read_file(argv[2]), best)) return 3;
  double limit = atof(argv[4]), t0 = now();
  std::string want = best.cls;
  Result base = attempt(best.rec);
  if (!base.viol || base.cls != want) { fprintf(stderr, "does not reproduce: %s %s\n", base.cls.c_str(), base.detail.c_str()); return 2; }
  best = base;
  int tries = 0;
  auto ok = [&](const Plan &p) {
    if (now() - t0 > limit) return false;
    tries++;
    Result r = attempt(p);
    if (!r.viol || r.cls != want || r.kind != base.kind) return false;
    best = r;
    return true;
  };
  auto ddmin = [&](auto get, auto prune) {
    { Plan p = best.rec; if (get(p).empty()) return; get(p).clear(); prune(p); if (ok(p)) return; }
    size_t chunk = std::max<size_t>(1, get(best.rec).size() / 2);
    while (now() - t0 <= limit) {
      bool any = false;
      for (size_t o = 0; o < get(best.rec).size() && now() - t0 <= limit;) {
        Plan p = best.rec;
        auto &v = get(p);
        v.erase(v.begin() + o, v.begin() + std::min(v.size(), o + chunk));
        prune(p);
        size_t before = get(best.rec).size();
        if (ok(p) && get(best.rec).size() < before) any = true;
        else o += chunk;
      }
      if (chunk == 1 && !any) break;
      if (chunk > 1) chunk /= 2;
    }
  };
  auto sw = [](Plan &p) -> std::vector<Switch> & { return p.switches; };
  auto fl = [](Plan &p) -> std::vector<Fault> & { return p.faults; };
  auto itm = [](Plan &p) -> std::vector<Item> & { return p.items; };
  auto none = [](Plan &) {};
  auto orphans = [](Plan &p) {
    std::set<int> ids;
    for (auto &i : p.items) ids.insert(i.id);
    std::vector<Fault> f;
    for (auto &x : p.faults) if (ids.count(x.item) || x.item >= 900000 || x.item <= 0) f.push_back(x);
    p.faults = f;
  };
  {
    Plan p = best.rec;
    for (auto i = p.knob.begin(); i != p.knob.end();)
      if (i->first.compare(0, 2, "r_") == 0) i = p.knob.erase(i); else ++i;
    ok(p);
  }
  for (int round = 0; round < 3 && now() - t0 <= limit; round++) {
    size_t before = best.rec.items.size() + best.rec.faults.size() + best.rec.switches.size();
    ddmin(sw, none);
    ddmin(fl, none);
    ddmin(itm, orphans);
    for (size_t i = 0; i < best.rec.items.size() && now() - t0 <= limit; i++) {
      for (int step = 0; step < 24; step++) {
        long z = best.rec.items[i].size;
        bool done = false;
        for (long c : {0l, z / 2, z - 1}) {
          if (c >= z || c < 0) continue;
          Plan p = best.rec;
          p.items[i].size = c;
          if (ok(p)) { done = true; break; }
        }
        if (!done || i >= best.rec.items.size()) break;
      }
    }
    for (const char *k : {"paint", "boost", "other_fds", "closed_fds", "fd_base", "locale", "crawl", "mem_stay", "gap"}) {
      if (!best.rec.k(k)) continue;
      Plan p = best.rec;
      p.knob[k] = 0;
      ok(p);
    }
    if (best.rec.items.size() + best.rec.faults.size() + best.rec.switches.size() == before) break;
  }
  write_file(argv[3], save_result(best));
  printf("minimised in %d tries: %zu items, %zu faults, %zu switches: %s: %s\n", tries, best.rec.items.size(), best.rec.faults.size(), best.rec.switches.size(), best.cls.c_str(), best.detail.c_str());
  return 0;
}
static int replay(int argc, char **argv) {
  if (argc < 3) return 3;
  Result want;
  std::string t = read_file(argv[2]);
  bool has = parse_result(t, want);
  Plan p;
  std::string err;
  if (has) p = want.rec;
  else if (!p.load(t, err)) { fprintf(stderr, "%s\n", err.c_str()); return 3; }
  if (p.items.empty()) gen_plan(p);
  Result r = run(p);
  for (int n = getenv("SIM_AGAIN") ? atoi(getenv("SIM_AGAIN")) : 0; n > 0 && !r.viol; n--) {  // within one process
    if (verbose) printf("hash %016llx\nagain\n", (unsigned long long)r.hash);
    Plan e = r.rec;
    r = run(e);
  }
  if (r.viol) printf("class %s\ndetail %s\n", r.cls.c_str(), one_line(r.detail).c_str());
  printf("hash %016llx\n", (unsigned long long)r.hash);
  return r.viol ? 10 : 0;
}
int main(int argc, char **argv) {
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  if (argc < 2) return 3;
  std::string m = argv[1];
  cov_map = (u8 *)calloc(cov_n + 2, 1);
  __sanitizer_set_death_callback(death);
  signal(SIGABRT, sigdie);
  signal(SIGPROF, sigcpu);
  engine_init();
  ref::curve_init();
  if (m == "selftest") {
    std::string e;
    ref::selftest(e);
    printf("%s\n", e.empty() ? "ok" : e.c_str());
    return e.empty() ? 0 : 1;
  }
  if (m == "batch") return batch(argc, argv);
  if (m == "minimise") return minimise(argc, argv);
  if (m == "replay") { verbose = getenv("SIM_VERBOSE") != nullptr; replaying = true; return replay(argc, argv); }
  if (m == "mids") { print_mids(); return 0; }
  if (m == "ids") { for (auto &s : scenario_ids()) puts(s.c_str()); return 0; }
  if (m == "plan" && argc >= 4) {
    Plan p;
    p.prop = argv[2];
    p.seed = strtoull(argv[3], 0, 10);
    if (argc > 4) p.variant = argv[4];
    gen_plan(p);
    fputs(p.save().c_str(), stdout);
    return 0;
  }
  return 3;
}
