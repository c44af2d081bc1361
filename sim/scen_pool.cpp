// One process at a time, several threads calling the library at once: epochs of
// concurrent lanes, with initialisation, crashes and restarts in between.
#include "scen.h"
#include <cerrno>
#include <cstdlib>
#include <cstdarg>
#include <algorithm>
#include <sys/mman.h>
#include <unistd.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/error.h>
#include <fingera_libc/hex.h>

Opt OPT;
u8 *huge_region(unsigned lane) {
  static u8 *all[8];
  u8 *&m = all[lane];
  if (m) return m;
  const size_t piece = 16u << 20, total = (4ull << 30) + (64u << 20);
  int fd = memfd_create("huge", 0);
  if (fd < 0 || ftruncate(fd, piece)) { perror("memfd"); _exit(3); }
  m = (u8 *)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
  for (size_t o = 0; o < total; o += piece)
    if (mmap(m + o, piece, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(3); }
  close(fd);
  return m;
}

const Item *synth(const char *kind, int id) {
  static std::map<std::pair<std::string, int>, Item> all;
  Item &i = all[{kind, id}];
  i.id = id;
  i.kind = kind;
  return &i;
}
Proc *boot(int node) {
  probe("boots");
  return new_proc(node);
}

// ------------------------------------------------------------- initialisation
static void check_blinding(u64 call, size_t first) {
  Bytes d;
  for (size_t i = first; i < W->chunks.size(); i++)
    if (W->chunks[i].call == call) d += W->chunks[i].data;
  int n = 0;
  for (auto &s : cur->p->ctx_seed) {
    if (s.second.first != call) continue;
    n++;
    const Bytes &seed = s.second.second;
    if (d.size() < 32 || d.find(seed) == Bytes::npos)
      fail("blinding", "the blinding seed " + hexs(seed) + " was not delivered by the operating system for this initialisation");
  }
  if (!n) fail("blinding", "initialisation does not blind any context");
  probe("blindings_checked");
}
void do_uninit(const Item &it) {
  lib([] { errno = 0; fingera_btc_key_uninit(); });
  cur->p->inited = false;
  W->st.ops["uninit"]++;
  if (OPT.leak || OPT.blind) {
    for (auto &h : cur->p->heap)
      if (h.second.base) fail("leak", fmt("%zu bytes allocated by initialisation are still allocated after uninitialisation", h.second.size));
  }
  if (OPT.blind && !cur->p->ctx_seed.empty()) fail("blinding", "a context outlives uninitialisation");
  (void)it;
}
void do_init(const Item &it) {
  if (cur->p->inited) do_uninit(it);
  size_t first = W->chunks.size();
  int e = it.seed % 3 == 0 ? (int)(it.seed / 3 % 40) : 0;  // left by something earlier
  lib([=] { errno = e; fingera_btc_key_init(); });
  cur->p->inited = true;
  W->st.ops["init"]++;
  if (cur->fired.count("rd_fail") || cur->fired.count("rd_eof"))
    fail("weak-entropy", "initialisation returned although the random source failed");
  for (auto &h : cur->p->heap)
    if (h.second.item == it.id) h.second.base = true;
  if (OPT.blind || OPT.entropy) check_blinding(cur->call, first);
}
void after_item(const Item &it) {
  if (OPT.leak) {
    for (auto &f : cur->p->fds)
      if (f.second.lib && f.second.item == it.id) fail("leak", fmt("%s: descriptor %d is still open after the call", it.kind.c_str(), f.first));
    for (auto &h : cur->p->heap)
      if (h.second.item == it.id && !h.second.base)
        fail("leak", fmt("%s: %zu bytes are still allocated after the call", it.kind.c_str(), h.second.size));
  }
  if (OPT.hygiene && !cur->leftovers.empty()) fail("secret-left", it.kind + ": " + cur->leftovers[0]);
  if (OPT.entropy && (cur->fired.count("rd_fail") || cur->fired.count("rd_eof")) && it.kind != "crash")
    fail("weak-entropy", it.kind + ": the call returned although the random source failed");
}
void check_exit(Proc *p) {
  if (!p->exited || p->why == "crash" || p->why == "hang" || W->viol.set) return;
  auto &f = p->exit_fired;
  bool cause = f.count("malloc") || f.count("rd_fail") || f.count("rd_eof") || f.count("open_fail") || f.count("open_eintr") || f.count("open_once") || f.count("rd_once");
  std::string how = fmt("process ended (%s, status %d) ", p->why.c_str(), p->code);
  if (p->me.data.size()) how += "after printing '" + p->me.data.substr(0, 200) + "'";
  if (!cause) { fail("process-exit", how + " although nothing had failed"); return; }
  if (p->code == 0) { fail("process-exit", how + ": success status after a failure"); return; }
  bool ent = f.count("rd_fail") || f.count("rd_eof") || f.count("open_fail") || f.count("open_eintr") || f.count("open_once") || f.count("rd_once");
  if (ent && p->me.data.empty() && !p->me.failed) { fail("process-exit", how + "without a word about the missing entropy"); return; }
  if (W->plan->prop == "C22" && ent && !p->me.failed && !p->win_codes.empty()) {
    bool named = false;  // of several threads that fail, the first to get through ends the process
    for (u32 k : p->win_codes)
      for (auto &t : {fmt("%u", k), fmt("%d", (int)k), fmt("%x", k), fmt("%X", k), win_text(k)}) named |= p->me.data.find(t) != Bytes::npos;
    if (!named) { fail("process-exit", how + fmt(" which does not name the system's error %08x", p->win_codes.back())); return; }
  }
  probe(ent ? "fatal_entropy" : "exit_no_memory");
}

// ------------------------------------------------------------------ hex dumps
struct DumpRec { int lane; Bytes text; };
static std::vector<DumpRec> dumps;   // of the running epoch, in order of their start
static void do_dump(const Item &it) {
  Call c(it);
  Bytes b;
  long lanes = W->plan->k("lanes", 1);
  int up = c.r.below(2) ? (int)c.r.range(1, 9) : 0;
  if (lanes > 2) {  // a private alphabet of hex digits for each lane
    b = Bytes((size_t)it.size, 0);
    for (auto &ch : b) {
      u8 hi = (u8)(it.lane * 4 % 16 + c.r.below(4)), lo = (u8)(it.lane * 4 % 16 + c.r.below(4));
      ch = (char)(hi << 4 | lo);
    }
  } else b = c.data(it.size);
  dumps.push_back({it.lane, ref::hexdump(b, up)});
  const u8 *i = c.in(b);
  W->sys_limit = std::max(W->sys_limit, (u64)b.size() * 64);  // a write for each character, some in vain
  lib([&] { errno = 0; fingera_hex_dump(i, b.size(), up); });
  c.verify();
}
// Least number of contiguous pieces that have to be deleted from `full` to get
// `part`; limit + 1 when more than limit or impossible.
static int deletions(const Bytes &full, const Bytes &part, int limit) {
  size_t n = full.size(), m = part.size();
  if (m > n) return limit + 1;
  // best[j][0]: full[i..] vs part[j..] while not deleting, [1]: while deleting
  const int INF = 1 << 20;
  std::vector<int> a(m + 1, INF), b(m + 1, INF);
  a[m] = 0; b[m] = 0;
  for (size_t i = n; i-- > 0;) {
    std::vector<int> na(m + 1, INF), nb(m + 1, INF);
    for (size_t j = 0; j <= m; j++) {
      int keep = j < m && full[i] == part[j] ? a[j + 1] : INF;
      nb[j] = std::min(b[j], keep);            // already deleting: go on, or keep this one
      na[j] = std::min(keep, 1 + b[j]);        // start to delete, or keep
    }
    a.swap(na);
    b.swap(nb);
  }
  return std::min(a[0], limit + 1);
}
static bool is_shuffle(const Bytes &a, const Bytes &b, const Bytes &t) {
  if (a.size() + b.size() != t.size()) return false;
  std::vector<char> ok(b.size() + 1, 0);
  for (size_t i = 0; i <= a.size(); i++)
    for (size_t j = 0; j <= b.size(); j++) {
      if (!i && !j) { ok[0] = 1; continue; }
      char c = t[i + j - 1];
      bool x = (i && ok[j] && a[i - 1] == c) || (j && ok[j - 1] && b[j - 1] == c);
      ok[j] = x;
    }
  return ok[b.size()];
}
static void check_dumps(Proc *p, size_t from, u64 failed0, bool ended) {
  Bytes got = p->mo.data.substr(from);
  u64 failed = p->mo.failed - failed0;
  std::map<int, Bytes> lane;
  for (auto &d : dumps) lane[d.lane] += d.text;
  if (lane.empty()) return;
  if (ended) failed += 1;  // an unfinished dump may lose its end
  auto show = [&](const Bytes &want) {
    size_t k = 0;
    while (k < want.size() && k < got.size() && want[k] == got[k]) k++;
    return fmt("%zu characters arrived, %zu expected, first difference at %zu, %llu writes failed", got.size(), want.size(), k, (unsigned long long)failed);
  };
  if (lane.size() == 1) {
    const Bytes &want = lane.begin()->second;
    if (!failed) { if (got != want) fail("dump", show(want)); }
    else if (deletions(want, got, (int)failed) > (int)failed) fail("dump", "not the text with at most that many pieces missing: " + show(want));
  } else if (lane.size() == 2 && !failed) {
    Bytes a = lane.begin()->second, b = lane.rbegin()->second;
    if (!is_shuffle(a, b, got)) fail("dump", "two concurrent dumps are not both complete and in order: " + show(a + b));
  } else if (W->plan->k("lanes", 1) > 2) {
    size_t ws_want = 0, ws_got = 0;
    for (auto &l : lane) {
      Bytes dw, dg;
      auto mine = [&](char ch) {
        int v = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1;
        return v >= 0 && v / 4 == l.first % 4;
      };
      for (char ch : l.second) { if (mine(ch)) dw += ch; else ws_want++; }
      for (char ch : got) if (mine(ch)) dg += ch;
      if (!failed ? dw != dg : deletions(dw, dg, (int)failed) > (int)failed)
        fail("dump", fmt("digits of lane %d are not all there in order (%zu of %zu, %llu writes failed)", l.first, dg.size(), dw.size(), (unsigned long long)failed));
    }
    for (char ch : got) if (!isxdigit((u8)ch)) ws_got++;
    if (!failed ? ws_got != ws_want : ws_got > ws_want) fail("dump", fmt("%zu separators arrived, %zu expected", ws_got, ws_want));
  }
  probe(failed ? "dumps_with_failures" : "dumps_clean");
}

// ---------------------------------------------------------------- fatal errors
struct FatalRec { int item; int err; u32 win = 0; std::string msg, func, file; long line; };
static std::map<int, FatalRec> fatals;
static void do_fatal(const Item &it) {
  Rng r(it.seed);
  static const char *funcs[] = {"op_rand", "main", "a_function_with_a_rather_long_name_0123456789", "f", "operator%", "operator%=", "%s%n", "100%d"};
  static const char *files[] = {"/src/random.c", "x.c", "/a/very/long/path/to/some/file_name_that_is_long.c", "dir with space/q%d.c", "z%s.h"};
  FatalRec f;
  f.item = it.id;
  f.func = funcs[r.below(8)];
  f.file = files[r.below(5)];
  f.line = (long)(r.below(3) ? r.below(5000) : r.below(2) ? 2147483647l : 4294967296l + (long)r.below(100));
  static const int errs[] = {0, 0, EIO, ENOENT, EMFILE, EACCES, ENOMEM, EINTR, ENOSPC, EBADF, EPERM, 1234, 133, 255, 256, 512, 65536, -1, 0x7fffffff};
  f.err = errs[r.below(19)];
  static const u32 wins[] = {0, 0, 2, 5, 8, 87, 0x80090016, 0xffffffff, 317, 0xC0000001, 1u << 31};
  bool win = W->plan->variant.compare(0, 3, "win") == 0;
  if (win) f.win = wins[r.below(11)];
  int a = (int)r.next();
  std::string s(it.size > 0 ? (size_t)it.size : 1, 'm');
  for (auto &ch : s) ch = (char)('a' + r.below(26));
  unsigned long long q = r.next();
  double dbl = (double)(r.below(1000)) / 8;
  int form = (int)r.below(7);
  switch (form) {
    case 0: f.msg = "plain message"; break;
    case 1: f.msg = fmt("code %d", a); break;
    case 2: f.msg = "text " + s; break;
    case 3: f.msg = fmt("%d of %u: ", a, (unsigned)q) + s + fmt(" (%llx)", q); break;
    case 4: f.msg = "100%"; break;
    case 5: f.msg = fmt("%5.3f|%-8d|%c", dbl, a, 'x'); break;
    default: f.msg = s + s + "."; break;
  }
  fatals[it.id] = f;
  note(fmt("fatal item %d errno %d", it.id, f.err));
  const char *fn = f.func.c_str(), *fl = f.file.c_str(), *ss = s.c_str();
  long ln = f.line;
  int e = f.err;
  lib([&] {
    cur->last_error = f.win;
    errno = e;
    switch (form) {
      case 0: fingera_fatal(fn, fl, ln, "plain message"); break;
      case 1: fingera_fatal(fn, fl, ln, "code %d", a); break;
      case 2: fingera_fatal(fn, fl, ln, "text %s", ss); break;
      case 3: fingera_fatal(fn, fl, ln, "%d of %u: %s (%llx)", a, (unsigned)q, ss, q); break;
      case 4: fingera_fatal(fn, fl, ln, "100%%"); break;
      case 5: fingera_fatal(fn, fl, ln, "%5.3f|%-8d|%c", dbl, a, 'x'); break;
      default: fingera_fatal(fn, fl, ln, "%s%s.", ss, ss); break;
    }
  });
  fail("fatal-returned", "a fatal error returned to its caller");
}
static void check_fatal(Proc *p) {
  if (!p->exited || W->viol.set) return;
  auto it = fatals.find(p->exit_item);
  if (it == fatals.end()) { fail("process-exit", fmt("the process ended (%s) in an item that reports no fatal error", p->why.c_str())); return; }
  const FatalRec &f = it->second;
  if (p->code == 0) { fail("fatal-status", "a fatal error ends the process with status 0"); return; }
  if (p->why != "exit" && p->why != "abort") { fail("fatal-status", "a fatal error ends the process by: " + p->why); return; }
  if (p->me.failed || p->me.dead) { probe("fatal_with_broken_stderr"); return; }
  const Bytes &o = p->me.data;
  const bool several = fatals.size() > 1 || !p->win_codes.empty();  // reports at once: their pieces may alternate
  auto need = [&](const std::string &s, const char *what) {
    if (o.find(s) == Bytes::npos)
      fail("fatal-message", fmt("standard error works but lacks the %s '%s': '%s'", what, s.substr(0, 80).c_str(), o.substr(0, 300).c_str()));
  };
  need(f.msg, "message");
  need(f.func, "function");
  need(f.file, "file");
  need(std::to_string(f.line), "line");
  Bytes tail = o;
  size_t at = tail.rfind(f.file);
  tail = at == Bytes::npos ? tail : tail.substr(at + f.file.size());
  if (f.err) {
    need(strerror(f.err), "system error text");
    // the number, after the position, apart from the line number
    Bytes t2 = tail;
    size_t l = t2.find(std::to_string(f.line));
    if (l != Bytes::npos) t2 = t2.substr(l + std::to_string(f.line).size());
    if (several) t2 = o;
    if (t2.find(std::to_string(f.err)) == Bytes::npos) fail("fatal-message", fmt("standard error lacks the system error number %d: '%s'", f.err, o.substr(0, 300).c_str()));
    probe("fatal_with_errno");
  }
  if (f.win) {
    if (p->exit_fired.count("fmtmsg") || p->exit_fired.count("malloc")) probe("fatal_without_system_text");
    else need(win_text(f.win).substr(0, win_text(f.win).size() - 2), "Windows error text");
    bool named = false;
    for (auto &t : {fmt("%u", f.win), fmt("%d", (int)f.win), fmt("%x", f.win), fmt("%X", f.win)}) named |= tail.find(t) != Bytes::npos || (several && o.find(t) != Bytes::npos);
    if (!named) fail("fatal-message", fmt("standard error lacks the Windows error %08x: '%s'", f.win, o.substr(0, 300).c_str()));
    probe("fatal_with_windows_error");
  } else if (!several && o.find("The system describes") != Bytes::npos)
    fail("fatal-message", fmt("no Windows error was pending, but standard error names one: '%s'", o.substr(0, 300).c_str()));
  if (!f.err && !several) {
    for (int e = 1; e < 134; e++) {
      std::string d = strerror(e);
      if (d.compare(0, 7, "Unknown") && o.find(d) != Bytes::npos)
        fail("fatal-message", fmt("no system error was pending, but standard error names one: '%s'", o.substr(0, 300).c_str()));
    }
    if (o.find("Success") != Bytes::npos) fail("fatal-message", fmt("no system error was pending, but standard error describes one: '%s'", o.substr(0, 300).c_str()));
    probe("fatal_without_errno");
  }
}

// ------------------------------------------------------------------- execution
static void exec_item(const Item &it) {
  begin_item(it);
  W->st.ops[it.kind]++;
  if (it.kind == "init") do_init(it);
  else if (it.kind == "uninit") { if (cur->p->inited) do_uninit(it); }
  else if (it.kind == "crash") { set_crash((u64)it.size + 1); return; }
  else if (it.kind == "dump") do_dump(it);
  else if (it.kind == "trace") do_trace(it);
  else if (it.kind == "fatal") do_fatal(it);
  else run_op(it);
  after_item(it);
}
static bool needs_key(const Item &it) {
  if (it.kind == "trace") return it.size % 25 >= 13;
  auto o = OPS.find(it.kind);
  return o != OPS.end() && o->second.needs_key;
}
void run_pool() {
  Plan &pl = *W->plan;
  std::map<int, std::map<int, std::vector<const Item *>>> ep;
  long lanes = pl.k("lanes", 1);
  for (auto &i : pl.items) ep[i.epoch][i.lane].push_back(&i);
  Proc *p = nullptr;
  dumps.clear();
  fatals.clear();
  for (auto &e : ep) {
    for (int tries = 0; tries < 3; tries++) {
      if (!p || !p->alive) { p = boot(0); fatals.clear(); }
      bool need = false;
      for (auto &l : e.second)
        if (l.first >= 0) for (auto *i : l.second) need |= needs_key(*i);
      Task *t = new_task(p, [&, tries] {
        if (tries == 0)
          for (auto *i : e.second[-1]) exec_item(*i);
        if (need && !cur->p->inited) {
          const Item *s = synth("init", 900000 + e.first);
          begin_item(*s);
          cur->nofault = true;
          do_init(*s);
          after_item(*s);
          cur->nofault = false;
        }
      }, 0);
      run_tasks({t});
      if (fatals.count(p->exit_item)) check_fatal(p); else check_exit(p);
      if (W->viol.set) return;
      if (p->alive) break;
    }
    if (!p->alive) continue;
    size_t from = 0;
    u64 failed0 = 0;
    if (pl.prop == "C18") {
      flush_streams(p);
      from = p->mo.data.size();
      failed0 = p->mo.failed;
      dumps.clear();
    }
    std::vector<Task *> ts;
    for (int l = 0; l < lanes; l++) {
      auto *v = &e.second[l];
      ts.push_back(new_task(p, [v] {
        for (auto *i : *v) exec_item(*i);
        cur->item = nullptr;
      }, l));
    }
    run_tasks(ts);
    if (W->viol.set) return;
    if (pl.prop == "C18") {
      // the flush at the end of the epoch, as at exit
      std::map<int, Bytes> l;
      flush_streams(p);
      check_dumps(p, from, failed0, !p->alive);
    }
    if (pl.prop == "C19" || fatals.count(p->exit_item)) check_fatal(p); else check_exit(p);
    if (W->viol.set) return;
    if (OPT.leak && p->alive) {
      for (auto &h : p->heap)
        if (!h.second.base) { fail("leak", fmt("%zu bytes are still allocated after all calls returned", h.second.size)); return; }
      for (auto &f : p->fds)
        if (f.second.lib) { fail("leak", fmt("descriptor %d is still open after all calls returned", f.first)); return; }
    }
    for (auto &f : p->fds) (void)f;
  }
}

// ------------------------------------------------------------------ generation
static int pick_gap(Rng &r) {
  static const int g[] = {8, 30, 150, 800, 4000, 20000};
  return g[r.below(6)];
}
static long fatal_size(Rng &r) {
  if (r.below(4)) return (long)r.below(60);
  if (r.below(3)) return (long)r.range(200, 900);
  return (1l << r.range(7, 13)) - (long)r.below(40);  // about the size of a buffer
}
static void base_knobs(Plan &p, Rng &r, long lanes) {
  p.knob["lanes"] = lanes;
  if (lanes > 1) {
    p.knob["gap"] = r.below(5) == 0 ? 0 : pick_gap(r);
    static const int b[] = {0, 0, 5, 30};
    p.knob["boost"] = b[r.below(4)];
  }
  if (r.below(3) == 0) {
    p.knob["family"] = (long)(1 + r.below(1u << 30));
    p.knob["slots"] = r.below(2);
  }
  p.knob["threads"] = r.below(4) != 0;
  p.knob["paint"] = (long)r.below(12);
  p.knob["r_errno_noise"] = r.below(2) ? 200000 : 0;
}
static void fd_knobs(Plan &p, Rng &r) {
  p.knob["other_fds"] = (long)r.below(4);
  if (r.below(4) == 0) p.knob["closed_fds"] = (long)(1 + r.below(7));
  else if (r.below(6) == 0) {
    static const long b[] = {127, 128, 255, 256, 1023, 1024, 4000, 32768, 65536};
    p.knob["fd_base"] = b[r.below(9)];
  }
}
struct Gen {
  Plan &p;
  Rng &r;
  int id = 1;
  void add(int lane, int epoch, const std::string &kind, long size) {
    Item i;
    i.id = id++;
    i.lane = lane;
    i.epoch = epoch;
    i.kind = kind;
    i.seed = r.next() >> 1;
    i.size = size;
    p.items.push_back(i);
  }
  void op(int lane, int epoch, const std::vector<std::string> &names) {
    p.items.push_back(make_op(r, id++, lane, epoch, pick_op(r, names)));
    long f = p.knob.count("family") ? p.knob["family"] : 0, &size = p.items.back().size;
    if (f && r.below(2)) {  // the same sizes again
      long m = OPS.at(p.items.back().kind).maxsize, s = (long)(hmix((u64)f, r.below(2)) % 100);
      if (s <= m) size = s;
    }
  }
  void fill(const std::vector<std::string> &names, long lanes, int epochs, int per) {
    for (int e = 0; e < epochs; e++)
      for (int l = 0; l < lanes; l++) {
        // sometimes every lane runs the same operation: the likeliest to collide
        std::vector<std::string> n = names;
        if (r.below(3) == 0) n = {pick_op(r, names)};
        int k = 1 + (int)r.below(per);
        for (int i = 0; i < k; i++) op(l, e, n);
      }
  }
};
static long rate(Rng &r) {
  static const long v[] = {20000, 60000, 200000, 500000};
  return v[r.below(4)];
}
static void gen_entropy_faults(Plan &p, Rng &r) {
  if (r.below(400) == 0) {
    static const long c[] = {1, 1, 2, 7, 16, 100};
    p.knob["crawl"] = c[r.below(6)];
  }
  if (r.below(4)) p.knob["r_rd_short"] = rate(r);
  if (r.below(2)) p.knob["r_rd_eintr"] = rate(r);
  if (r.below(3) == 0) p.knob["r_close_eintr"] = rate(r);
  if (r.below(10) == 0) p.knob["r_open_eintr"] = rate(r) / 2;
  if (r.below(10) == 0) p.knob["r_open_once"] = rate(r) / 2;
  if (r.below(10) == 0) p.knob["r_rd_once"] = rate(r) / 2;
}
// Now and then a history of hundreds of calls in one process, or many threads.
static void stretch(Plan &p, Rng &r) {
  std::vector<Item> from;
  int id = 0, epochs = 1;
  for (auto &i : p.items) {
    id = std::max(id, i.id);
    epochs = std::max(epochs, i.epoch + 1);
    if (i.kind == "crash" || i.kind == "fatal" || i.kind.compare(0, 4, "huge") == 0) continue;
    if (i.lane >= 0 || p.prop == "C06" || p.prop == "C04") from.push_back(i);
  }
  if (from.empty()) return;
  long lanes = p.k("lanes", 1), n;
  if (r.below(3) == 0) n = (long)r.range(100, p.prop == "C06" || p.prop == "C03" || p.prop == "C02" || p.prop == "C01" ? 700 : 300);
  else {
    p.knob["lanes"] = lanes = (long)r.range(7, 40);
    if (!p.k("gap")) p.knob["gap"] = pick_gap(r);
    p.knob["gap"] = std::max(p.k("gap"), p.prop == "C17" ? 1000l : 100l);  // a switch costs more than what it interrupts
    n = lanes + (long)r.below(20);
  }
  for (long k = 0; k < n; k++) {
    Item i = from[r.below(from.size())];
    i.id = ++id;
    i.seed = r.next() >> 1;
    if (i.size > 300) i.size = (long)r.below(300);
    if (i.lane >= 0) i.lane = (int)((u64)k % (u64)lanes);
    if (i.lane >= 0 && r.below(2)) i.epoch = (int)r.below((u64)epochs);
    p.items.push_back(i);
  }
  std::stable_sort(p.items.begin(), p.items.end(), [](const Item &a, const Item &b) { return a.epoch < b.epoch; });
}
void gen_plan(Plan &p) {
  Rng r(hmix(p.seed, 0x9e4));
  const std::string &P = p.prop;
  Gen g{p, r};
  if (p.variant == "plain") {  // no instrumentation: one call with huge buffers
    p.knob["lanes"] = 1;
    auto names = op_group({P == "C07" ? "hugehash" : P == "C08" ? "hugecodec" : "hugedump"});
    p.knob["out_bufsz"] = 65536;
    u64 i = (p.seed >> 3) * 4 + (p.seed & 3);
    std::string n = names[i % names.size()];
    g.add(0, 0, n, P == "C18" ? (long)(p.seed & 1) : 0);
    return;
  }
  if (P == "C01") {
    long lanes = r.below(4) ? (long)r.range(1, 4) : 1;
    base_knobs(p, r, lanes);
    fd_knobs(p, r);
    gen_entropy_faults(p, r);
    bool huge = r.below(40) == 0;
    if (huge) { p.knob.erase("crawl"); p.knob["r_rd_short"] = 2000; p.knob["r_rd_eintr"] = 20000; }
    for (long l = 0; l < lanes; l++) {
      int n = (int)r.range(1, 6);
      for (int i = 0; i < n; i++) {
        g.op((int)l, (int)r.below(2), op_group({"rand"}));
        if (p.k("crawl")) p.items.back().size = r.below(4) ? (long)r.below(300) : (long)r.range(2000, 16000);
        else if (r.below(20) == 0) p.items.back().size = (long)r.range(4000, 70000);
        if (huge && i == 0 && l < 2) g.op((int)l, 0, op_group({"huge"}));
      }
    }
  } else if (P == "C02") {
    long lanes = (long)r.range(1, 3);
    base_knobs(p, r, lanes);
    fd_knobs(p, r);
    gen_entropy_faults(p, r);
    switch (r.below(6)) {
      case 0: p.knob["r_open_fail"] = rate(r); break;
      case 1: p.knob["r_rd_fail"] = rate(r); break;
      case 2: p.knob["r_rd_eof"] = rate(r); break;
      case 3: p.knob["r_open_once"] = rate(r); break;
      case 4: p.knob["r_rd_once"] = rate(r); break;
      default: p.knob["r_open_fail"] = 30000; p.knob["r_rd_fail"] = rate(r) / 2; p.knob["r_rd_eof"] = rate(r) / 2;
    }
    int epochs = (int)r.range(1, 6);
    for (int e = 0; e < epochs; e++) {
      if (r.below(2)) g.add(-1, e, "init", 0);
      for (long l = 0; l < lanes; l++) {
        int n = (int)r.range(1, 3);
        for (int i = 0; i < n; i++) {
          g.op((int)l, e, r.below(2) ? op_group({"rand"}) : op_group({"gen"}));
          if (p.items.back().kind == "rand" && p.items.back().size == 0) p.items.back().size = 16;
        }
      }
    }
  } else if (P == "C03") {
    long lanes = r.below(4) ? (long)r.range(2, 4) : 1;
    base_knobs(p, r, lanes);
    gen_entropy_faults(p, r);
    int epochs = (int)r.range(1, 4);
    for (int e = 0; e < epochs; e++) {
      if (r.below(2)) g.add(-1, e, r.below(4) ? "init" : "uninit", 0);
      for (long l = 0; l < lanes; l++) {
        if (r.below(12) == 0) g.add((int)l, e, "crash", (long)r.below(3000));
        int n = (int)r.range(1, 4);
        for (int i = 0; i < n; i++) g.op((int)l, e, op_group({"gen"}));
      }
    }
  } else if (P == "C04") {
    long lanes = (long)r.range(1, 3);
    base_knobs(p, r, lanes);
    fd_knobs(p, r);
    if (r.below(2)) gen_entropy_faults(p, r);
    if (r.below(2)) p.knob["r_malloc"] = rate(r);
    if (r.below(5) == 0) p.knob["mem_stay"] = 1;
    auto names = op_group({"hash", "codec", "text", "text", "key", "dec", "rand", "gen"});
    int epochs = (int)r.range(1, 4);
    for (int e = 0; e < epochs; e++) {
      if (r.below(2)) g.add(-1, e, r.below(3) ? "init" : "uninit", 0);
      for (long l = 0; l < lanes; l++) {
        int n = (int)r.range(1, 5);
        for (int i = 0; i < n; i++) g.op((int)l, e, names);
      }
    }
    if (r.below(2)) g.add(-1, epochs, "uninit", 0);
  } else if (P == "C05") {
    long lanes = r.below(3) ? 1 : 2;
    base_knobs(p, r, lanes);
    p.knob["r_malloc"] = r.below(3) ? 500000 : rate(r);
    p.knob["mem_stay"] = r.below(3) == 0;
    auto names = op_group({"text", "key", "dec", "codec"});
    for (auto n : {"base58", "base58check", "addr", "wif", "xprv", "xpub", "dec_base58", "dec_base58check", "dec_addr", "dec_wif", "dec_xprv", "dec_xpub", "bech32", "dec_bech32"})
      for (int i = 0; i < 14; i++) names.push_back(n);
    int epochs = (int)r.range(1, 3);
    for (int e = 0; e < epochs; e++) {
      if (r.below(4) == 0) g.add(-1, e, "init", 0);
      for (long l = 0; l < lanes; l++) {
        int n = (int)r.range(1, 6);
        for (int i = 0; i < n; i++) {
          g.op((int)l, e, names);
          if (OPS.at(p.items.back().kind).maxsize > 100 && r.below(2)) p.items.back().size = (long)r.range(60, 400);
        }
      }
    }
  } else if (P == "C06") {
    long lanes = (long)r.range(1, 3);
    base_knobs(p, r, lanes);
    gen_entropy_faults(p, r);
    p.knob["blindcheck"] = 1;
    auto names = op_group({"key", "gen"});
    int epochs = (int)r.range(1, 5);
    for (int e = 0; e < epochs; e++) {
      int n = (int)r.range(1, 3);
      for (int i = 0; i < n; i++) g.add(-1, e, r.below(4) ? "init" : "uninit", 0);
      if (r.below(8) == 0) g.add(0, e, "crash", (long)r.below(5000));
      for (long l = 0; l < lanes; l++) {
        int k = (int)r.below(3);
        for (int i = 0; i < k; i++) g.op((int)l, e, names);
      }
    }
  } else if (P == "C07" || P == "C08" || P == "C09" || P == "C10") {
    long lanes = r.below(5) ? (long)r.range(2, 4) : 1;
    base_knobs(p, r, lanes);
    auto names = op_group({P == "C07" ? "hash" : P == "C08" ? "codec" : P == "C09" ? "text" : "key"});
    if (P == "C08")
      for (auto n : {"dec_hex", "dec_base64", "dec_base64url", "dec_base32", "dec_base32raw", "dec_base58", "dec_sweep", "dec_varint"})
        for (int i = 0; i < 5; i++) names.push_back(n);
    if (P == "C09")
      for (auto n : {"dec_base58check", "dec_bech32", "dec_addr", "dec_wif", "dec_xprv", "dec_xpub"})
        for (int i = 0; i < 4; i++) names.push_back(n);
    if (P == "C10")
      for (auto n : {"dec_keyder", "dec_sigder", "dec_pub", "keynew"})
        for (int i = 0; i < 4; i++) names.push_back(n);
    g.fill(names, lanes, (int)r.range(1, 2), 5);
    if (P == "C10" && r.below(3) == 0) g.add(-1, 1, "init", 0);
  } else if (P == "C11") {
    long lanes = r.below(3) ? 1 : (long)r.range(2, 3);
    base_knobs(p, r, lanes);
    g.fill(op_group({"dec"}), lanes, 1, 8);
  } else if (P == "C17") {
    long lanes = r.below(4) ? 1 : 2;
    base_knobs(p, r, lanes);
    p.knob["boost"] = 0;
    if (r.below(3) == 0) p.knob["r_malloc"] = rate(r);
    if (r.below(3) == 0) gen_entropy_faults(p, r);
    std::vector<std::string> names = {"cleanse", "sha256", "sha512", "hash256", "hmac256", "hmac512", "bip32hash", "base58", "base58check", "wif", "xprv", "getpub", "keyid", "keyder", "sign", "derive",
                                      "exinit", "exderive", "ser74", "dec_wif", "dec_xprv", "dec_keyder", "keynew", "rand"};
    if (r.below(3) == 0) g.add(-1, 0, "init", 0);
    for (long l = 0; l < lanes; l++) {
      int n = (int)r.range(1, 4);
      for (int i = 0; i < n; i++) {
        g.op((int)l, 0, names);
        if (r.below(4) == 0 && OPS.at(p.items.back().kind).maxsize > 100) p.items.back().size = (long)r.range(60, 600);
      }
    }
  } else if (P == "C18") {
    long lanes = (long)(r.below(3) ? r.range(1, 2) : r.range(3, 4));
    base_knobs(p, r, lanes);
    p.knob["out_buf"] = (long)r.below(3);
    static const long bs[] = {16, 100, 1000, 1024, 4096, 65536};
    p.knob["out_bufsz"] = bs[r.below(6)];
    bool faults = r.below(2);
    if (faults) {
      if (r.below(2)) p.knob["r_w_err"] = rate(r);
      if (r.below(2)) p.knob["r_w_short"] = rate(r);
      if (r.below(3) == 0) p.knob["r_w_dead"] = rate(r) / 4;
      p.knob["r_w_stall"] = r.below(2) ? 100000 : 0;
    }
    int epochs = (int)r.range(1, 2);
    static const long sz[] = {0, 1, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 128, 400, 401, 402, 403, 404, 410, 416, 417, 420, 448, 500, 800, 832, 833, 840, 1300, 2000};
    for (int e = 0; e < epochs; e++)
      for (long l = 0; l < lanes; l++) {
        int n = (int)r.range(1, lanes > 1 ? 2 : 3);
        for (int i = 0; i < n; i++) {
          long s = r.below(2) ? sz[r.below(36)] : (long)r.below(r.below(3) ? 200 : 1500);
          if (lanes == 1 && !faults && r.below(20) == 0) s = (long)r.range(5000, 20000);
          if (lanes > 1 || faults) s = std::min<long>(s, 700);
          g.add((int)l, e, "dump", s);
        }
      }
  } else if (P == "C19") {
    long lanes = r.below(3) ? 1 : (long)r.range(2, 3);
    base_knobs(p, r, lanes);
    p.knob["err_buf"] = r.below(2) ? 2 : (long)r.below(2);
    p.knob["out_bufsz"] = r.below(2) ? 64 : 4096;
    p.knob["r_errno_noise"] = r.below(3) ? 500000 : 0;
    switch (r.below(5)) {
      case 0: p.knob["r_w_dead"] = r.below(2) ? 1000000 : 300000; break;
      case 1: p.knob["r_w_err"] = rate(r); break;
      case 2: p.knob["r_w_short"] = 500000; p.knob["r_w_stall"] = 300000; break;
      default: break;
    }
    int epochs = (int)r.range(1, 3);
    for (int e = 0; e < epochs; e++)
      for (long l = 0; l < lanes; l++) {
        if (r.below(4) == 0) g.op((int)l, e, op_group({"codec"}));
        if (l == 0 || r.below(2)) g.add((int)l, e, "fatal", fatal_size(r));
      }
  } else if (P == "C22") {
    long lanes = r.below(3) ? (long)r.range(1, 4) : 1;
    base_knobs(p, r, lanes);
    p.knob["r_lasterr_noise"] = r.below(2) ? 300000 : 0;
    bool fatal = r.below(4) == 0;
    switch (r.below(10)) {
      case 0: case 1: p.knob["r_open_fail"] = rate(r); break;
      case 2: case 3: p.knob["r_rd_fail"] = rate(r); break;
      case 4: p.knob["r_open_once"] = rate(r); break;
      case 5: p.knob["r_rd_once"] = rate(r); break;
      case 6: p.knob["r_open_once"] = p.knob["r_rd_once"] = rate(r); break;
      default: break;
    }
    if (fatal) {
      p.knob["err_buf"] = r.below(2) ? 2 : (long)r.below(2);
      p.knob["out_bufsz"] = r.below(2) ? 64 : 4096;
      if (r.below(3) == 0) p.knob["r_fmtmsg"] = 300000;
      if (r.below(5) == 0) p.knob["r_malloc"] = 300000;
      if (r.below(5) == 0) p.knob["r_w_err"] = rate(r);
    }
    bool huge = r.below(60) == 0;
    int epochs = (int)r.range(1, 4);
    for (int e = 0; e < epochs; e++) {
      if (r.below(3) == 0) g.add(-1, e, "init", 0);
      for (long l = 0; l < lanes; l++) {
        int n = (int)r.range(1, 4);
        for (int i = 0; i < n; i++) {
          if (fatal && r.below(3) == 0) { g.add((int)l, e, "fatal", fatal_size(r)); continue; }
          g.op((int)l, e, r.below(2) ? op_group({"rand"}) : op_group({"gen"}));
          if (p.items.back().kind == "rand" && p.items.back().size == 0) p.items.back().size = 16;
        }
      }
      if (huge && e == 0) g.op(0, 0, op_group({"huge"}));
    }
  } else if (P == "C21") {
    long lanes = r.below(2) ? 1 : (long)r.range(2, 4);
    base_knobs(p, r, lanes);
    int epochs = (int)r.range(1, 2);
    for (int e = 0; e < epochs; e++)
      for (long l = 0; l < lanes; l++)
        for (int i = (int)r.range(1, 3); i > 0; i--) g.add((int)l, e, "trace", (long)r.below(25));
  } else if (P == "C23" || P == "C24") {
    long lanes = r.below(4) == 0 ? (long)r.range(2, 3) : 1;
    base_knobs(p, r, lanes);
    g.fill(op_group({"hash", "codec", "text", "key", "dec", "gen"}), lanes, (int)r.range(1, 2), 8);
  } else if (P == "C25") {
    long lanes = r.below(3) == 0 ? (long)r.range(2, 3) : 1;
    base_knobs(p, r, lanes);
    if (r.below(4)) p.knob["locale"] = (long)r.below(7);
    else p.knob["r_setlocale"] = rate(r);
    g.fill(op_group({"codec", "text", "dec"}), lanes, (int)r.range(1, 2), 6);
  } else if (P == "C12") gen_c12(p, r);
  else if (P == "C13") gen_c13(p, r);
  else if (P == "C14") gen_c14(p, r);
  else if (P == "C15") gen_c15(p, r);
  else if (P == "C16") gen_c16(p, r);
  else if (P == "C20") gen_c20(p, r);
  else { fprintf(stderr, "unknown property %s\n", P.c_str()); _exit(3); }
  static const std::set<std::string> no = {"C12", "C13", "C14", "C15", "C16", "C18", "C19", "C20", "C21"};
  if (P == "C17")
    for (auto &i : p.items) if (i.size > 33000) i.size /= 8;  // searching for the windows takes seconds
  if (!no.count(P) && r.below(80) == 0) stretch(p, r);
}
const std::vector<std::string> &scenario_ids() {
  static std::vector<std::string> v;
  if (v.empty()) for (int i = 1; i <= 25; i++) v.push_back(fmt("C%02d", i));
  return v;
}
void run_plan() {
  const std::string &P = W->plan->prop;
  OPT = Opt();
  OPT.leak = P == "C04" || P == "C22";
  OPT.hygiene = P == "C17";
  OPT.blind = P == "C06";
  OPT.entropy = P == "C02" || P == "C03" || P == "C01" || P == "C22";
  W->hygiene = OPT.hygiene;
  W->family = (u64)W->plan->k("family", 0);
  W->slotted = W->plan->k("slots", 0);
  if (P == "C12") run_c12();
  else if (P == "C13") run_c13();
  else if (P == "C14") run_c14();
  else if (P == "C15") run_c15();
  else if (P == "C16") run_c16();
  else if (P == "C20") run_c20();
  else run_pool();
}
