#include "engine.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

World *W;
Task *cur;
Proc *curp;
u8 *cov_map;
u32 cov_n, cov_hit;
u64 lib_lo, lib_hi;

// The library's writable globals: its .data and .bss are renamed at link time.
extern "C" {
extern char __start_fl_data[] __attribute__((weak)), __stop_fl_data[] __attribute__((weak));
extern char __start_fl_bss[] __attribute__((weak)), __stop_fl_bss[] __attribute__((weak));
}
static std::string pristine_data, pristine_bss;
// plain copies: the sanitizer's red zones lie between the globals
static inline void raw_copy(void *d, const void *s, size_t n) {
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static void raw_save(std::string &o, const char *lo, const char *hi) {
  o.resize(hi - lo);
  if (hi > lo) raw_copy(&o[0], lo, hi - lo);
}

static const size_t STACK = 256 << 10, AUX = 512 << 10, GUARD = 64 << 10;
static std::vector<std::pair<u8 *, u8 *>> stack_pool;

// ------------------------------------------------------------------ context
extern "C" void sim_ctx_switch(void **save, void *load);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.globl sim_call_on
.type sim_call_on,@function
sim_call_on:            # (fn, arg, top)
  pushq %rbp
  movq %rsp, %rbp
  movq %rdx, %rsp
  movq %rdi, %rax
  movq %rsi, %rdi
  call *%rax
  movq %rbp, %rsp
  popq %rbp
  ret
.globl sim_clear_below
.type sim_clear_below,@function
sim_clear_below:        # wipes 1 KB below its caller's stack pointer
  leaq -1032(%rsp), %rdi
  xorl %eax, %eax
  movl $128, %ecx
  rep stosq
  ret
)");
extern "C" void sim_call_on(void (*fn)(void *), void *arg, void *top);
extern "C" void sim_clear_below();

static void *main_sp;
static const void *main_bottom;
static size_t main_size;
static void *main_fake;
static long gap = 1, gap_set = 1;
static const long CAP = 1 << 20;
static const u64 FORCE = 4u << 20;

struct Sched {
  std::vector<Task *> group;
  int next_hint = -1;  // chosen by the yielding task
} S;
struct TX { u64 preempt_at, crash_at; void *fake; u64 last_sw; };
static std::map<Task *, TX> tx;

std::string fmt(const char *f, ...) {
  char b[2048];
  va_list a;
  va_start(a, f);
  int n = vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return std::string(b, n < 0 ? 0 : std::min<size_t>(n, sizeof b - 1));
}
std::string hexs(const Bytes &b, size_t max) {
  std::string r;
  for (size_t i = 0; i < b.size() && i < max; i++) r += fmt("%02x", (u8)b[i]);
  if (b.size() > max) r += fmt("..(%zu)", b.size());
  return r;
}
static void hash_in(u64 &h, const std::string &s) {
  for (char c : s) h = (h ^ (u8)c) * 1099511628211ull;
  h = (h ^ 0xff) * 1099511628211ull;
}
void note(const std::string &s) {
  hash_in(W->hash, s);
  if (!W->strip_trace) W->log.push_back(s);
}
static void stop_here();
void fail(const std::string &cls, const std::string &detail) {
  note("VIOLATION " + cls + " " + detail);
  if (W->viol.set) return;
  W->viol.set = true;
  W->viol.cls = cls;
  W->viol.detail = detail;
  W->viol.item = cur && cur->item ? cur->item->id : -1;
  if (cur) stop_here();
}
void probe(const char *n) { W->st.probes[n]++; }
static u64 shash(const char *s) {
  u64 h = 1469598103934665603ull;
  for (; *s; s++) h = (h ^ (u8)*s) * 1099511628211ull;
  return h;
}
double World::rate(const char *kind) const {
  auto it = rates.find(kind);
  return it == rates.end() ? 0 : it->second;
}
bool in_sim() { return cur && cur->in_lib; }

bool fault(const char *kind, double p, u64 *param) {
  if (!W || !cur || !cur->item) return false;
  u64 o = cur->ord[kind]++;
  if (cur->nofault) return false;
  if (p < 0) p = W->rate(kind);
  u64 prm = 0;
  if (W->plan->explicit_mode) {
    auto it = W->xf.find({cur->item->id, kind});
    if (it == W->xf.end()) return false;
    auto jt = it->second.find(o);
    if (jt == it->second.end()) return false;
    prm = jt->second;
  } else {
    if (p <= 0) return false;
    W->st.offered[kind]++;
    u64 h = hmix(hmix(hmix(W->plan->seed, cur->item->id + 7), shash(kind)), o);
    if ((double)(h >> 11) / 9007199254740992.0 >= p) return false;
    prm = mix64(h ^ 0xabcdef) >> 1;
  }
  W->st.fired[kind]++;
  cur->fired[kind]++;
  W->fired.push_back({cur->item->id, kind, o, prm});
  note(fmt("fault %d %s %llu %llu", cur->item->id, kind, (unsigned long long)o, (unsigned long long)prm));
  if (param) *param = prm;
  return true;
}
u64 draw(const char *kind) {
  u64 o = cur ? cur->ord[std::string("d:") + kind]++ : 0;
  return hmix(hmix(hmix(W->plan->seed, (cur && cur->item ? cur->item->id : 0) + 11), shash(kind)), o) >> 1;
}

Bytes stale(size_t n) {
  Bytes b(n, 0);
  static const u8 pat[] = {'=', '1', 0x00, 0xff, ' ', 'q', 'A', 0xCC, '\n'};
  int p = W ? W->paint : 0;
  if (p < 9) memset(&b[0], pat[p], n);
  else {
    u64 x = W->plan->seed * 31 + p;
    for (size_t i = 0; i < n; i++) {
      if (i % 8 == 0) x = mix64(x);
      b[i] = (char)(x >> (i % 8 * 8));
    }
  }
  return b;
}

// --------------------------------------------------------------- processes
static void load_proc(Proc *p) {
  if (curp == p) return;
  if (curp) {
    raw_save(curp->data, __start_fl_data, __stop_fl_data);
    raw_save(curp->bss, __start_fl_bss, __stop_fl_bss);
  }
  curp = p;
  const std::string &d = p ? p->data : pristine_data, &b = p ? p->bss : pristine_bss;
  if (d.size()) raw_copy(__start_fl_data, d.data(), d.size());
  if (b.size()) raw_copy(__start_fl_bss, b.data(), b.size());
}
extern "C" FILE *sim_stdout, *sim_stderr;
FILE *open_model(Proc *p, int which);
Proc *new_proc(int node) {
  Proc *p = new Proc;
  p->locale = (int)W->plan->k("locale");
  p->id = (int)W->procs.size();
  p->node = node;
  p->data = pristine_data;
  p->bss = pristine_bss;
  p->pid = 1000 + p->id * 7;
  for (int fd = 0; fd < 3; fd++)
    if (!(W->plan->k("closed_fds") >> fd & 1)) p->fds[fd].kind = 2;
  for (long i = 0; i < W->plan->k("other_fds"); i++) p->fds[3 + (int)i * 2].kind = 2;
  p->out = open_model(p, 1);
  p->err = open_model(p, 2);
  W->procs.push_back(p);
  return p;
}
void flush_streams(Proc *p) {
  Task *t = cur;
  if (p->out) fflush(p->out);
  if (p->err) fflush(p->err);
  (void)t;
}
void free_proc(Proc *p) {
  if (curp == p) load_proc(nullptr);
  for (auto &h : p->heap) free(h.first);
  p->heap.clear();
  for (auto &t : p->thread_tls) for (auto &v : t.second) free(v.second.first);
  p->thread_tls.clear();
  if (p->out) { fclose(p->out); p->out = nullptr; }
  if (p->err) { fclose(p->err); p->err = nullptr; }
}
void kill_proc(Proc *p, const char *why) {
  if (!p->alive) return;
  p->alive = false;
  p->exited = true;
  p->code = 137;
  p->why = why;
  for (Task *t : p->tasks) t->dead = true;
  note(fmt("kill proc %d %s", p->id, why));
}

static void finish_fiber(Task *t) {
  __sanitizer_finish_switch_fiber(tx[t].fake, &main_bottom, &main_size);
}
static void task_entry() {
  finish_fiber(cur);
  cur->fn();
  cur->done = true;
  cur->yields += gap_set - gap;
  gap = gap_set = 1;
  void *dummy;
  __sanitizer_start_switch_fiber(nullptr, main_bottom, main_size);
  sim_ctx_switch(&dummy, main_sp);
  abort();
}
static const Bytes &paint_pat() {
  static Bytes pat;
  static u64 key = ~0ull;
  u64 k = (u64)W->paint + (W->paint >= 9 ? W->plan->seed * 64 : 0);
  if (key != k || pat.size() != STACK) { pat = stale(STACK); key = k; }
  return pat;
}
static void poison_fill(u8 *p, size_t n) { memcpy(p, paint_pat().data(), std::min(n, STACK)); }
Task *new_task(Proc *p, std::function<void()> fn, int thread) {
  Task *t = new Task;
  t->id = (int)W->tasks.size();
  t->p = p;
  t->fn = std::move(fn);
  if (thread >= 0 && W->plan->k("threads")) {
    t->thread = thread;
    t->tls.swap(p->thread_tls[thread]);
  }
  if (stack_pool.empty()) {
    auto mk = [](size_t n) {
      u8 *m = (u8 *)mmap(nullptr, n + 2 * GUARD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
      mprotect(m, GUARD, PROT_NONE);
      mprotect(m + GUARD + n, GUARD, PROT_NONE);
      return m + GUARD;
    };
    stack_pool.push_back({mk(STACK), mk(AUX)});
  }
  t->stack = stack_pool.back().first;
  t->aux = stack_pool.back().second;
  stack_pool.pop_back();
  __asan_unpoison_memory_region(t->stack, STACK);
  __asan_unpoison_memory_region(t->aux, AUX);
  void **sp = (void **)(t->stack + STACK - 64);
  *--sp = nullptr;
  *--sp = (void *)task_entry;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  t->sp = sp;
  tx[t] = {~0ull, ~0ull, nullptr, ~0ull};
  W->tasks.push_back(t);
  p->tasks.push_back(t);
  return t;
}

// --------------------------------------------------------------- scheduling
static bool runnable(Task *t) { return !t->done && !t->dead && !t->blocked; }
static std::vector<Task *> others(Task *t) {
  std::vector<Task *> r;
  for (Task *x : S.group)
    if (x != t && runnable(x)) r.push_back(x);
  return r;
}
static bool multi() {
  int n = 0;
  for (Task *x : S.group) n += runnable(x);
  return n > 1;
}
static u64 geom(long mean) {
  double u = (double)((W->sched.next() >> 11) + 1) / 9007199254740993.0;
  double g = -__builtin_log(u) * mean;
  return 1 + (u64)g;
}
static void set_gap(Task *t) {
  u64 target = t->yields + CAP;
  TX &x = tx[t];
  target = std::min(target, std::min(x.preempt_at, x.crash_at));
  if (W->plan->explicit_mode) {
    auto it = W->xsord.find(t->id);
    if (it != W->xsord.end()) {
      auto jt = std::upper_bound(it->second.begin(), it->second.end(), t->yields);
      if (jt != it->second.end()) target = std::min(target, *jt);
    }
  }
  gap_set = gap = target > t->yields ? (long)(target - t->yields) : 1;
}
static void arm(Task *t) {
  TX &x = tx[t];
  x.preempt_at = ~0ull;
  if (!W->plan->explicit_mode && W->mean_gap > 0 && multi()) x.preempt_at = t->yields + geom(W->mean_gap);
}
static void to_main(bool dead) {
  Task *t = cur;
  t->err = errno;
  TX &x = tx[t];
  __sanitizer_start_switch_fiber(dead ? nullptr : &x.fake, main_bottom, main_size);
  void *dummy;
  sim_ctx_switch(dead ? &dummy : &t->sp, main_sp);
  finish_fiber(t);
  errno = t->err;
}
static void stop_here() {
  cur->yields += gap_set - gap;
  gap = gap_set = 1;
  to_main(true);
  abort();
}
static void record_switch(Task *from, Task *to, bool must) {
  W->switches.push_back({from->id, from->yields * 2 + must, to->id});
  W->st.switches++;
  std::string s = fmt("s%d@%llu>%d", from->id, (unsigned long long)from->yields, to->id);
  hash_in(W->ihash, s);
  note(s);
}
// Chooses who runs after `t` stopped (blocked or finished) or was preempted.
static Task *choose(Task *t, bool must) {
  auto o = others(t);
  if (o.empty()) return nullptr;
  if (W->plan->explicit_mode) {
    auto it = W->xs.find({t->id, t->yields * 2 + must});
    if (it != W->xs.end()) {
      for (Task *x : o)
        if (x->id == it->second) { record_switch(t, x, must); return x; }
    }
    if (!must) return nullptr;
    record_switch(t, o[0], must);
    return o[0];
  }
  Task *n = o[W->sched.below(o.size())];
  record_switch(t, n, must);
  return n;
}
static void crash_self() {
  kill_proc(cur->p, "crash");
  W->st.fired["crash_in_call"]++;
  to_main(true);
  abort();
}
static void slow_impl(bool force_preempt) {
  Task *t = cur;
  t->yields += gap_set - gap;
  W->consecutive += gap_set - gap;
  gap = gap_set = 1;
  TX &x = tx[t];
  if (t->in_lib && t->yields - t->call_yield0 > W->yield_limit) {
    fail("hang", fmt("call does not return after %llu steps", (unsigned long long)(t->yields - t->call_yield0)));
    kill_proc(t->p, "hang");
    to_main(true);
    abort();
  }
  if (t->yields >= x.crash_at) { x.crash_at = ~0ull; crash_self(); }
  bool pre = force_preempt && x.last_sw != t->yields;
  if (W->plan->explicit_mode) pre = W->xs.count({t->id, t->yields * 2});
  else if (t->yields >= x.preempt_at) pre = true;
  if (!pre && W->consecutive >= FORCE) {
    auto o = others(t);
    if (!o.empty()) {  // fairness: round robin, part of the rules, not recorded
      Task *n = o[0];
      for (Task *c : o) if (c->id > t->id) { n = c; break; }
      S.next_hint = n->id;
      to_main(false);
      return;
    }
    W->consecutive = 0;
  }
  if (pre) {
    Task *n = choose(t, false);
    if (n) {
      x.last_sw = t->yields;
      S.next_hint = n->id;
      to_main(false);
      return;
    }
    arm(t);
  }
  set_gap(t);
}
static void slow(bool force) {
  if (!cur) { gap = gap_set = CAP; return; }
  if (cur->aux_busy) slow_impl(force);
  else on_aux([force] { slow_impl(force); });
}
static inline void count() {
  if (__builtin_expect(--gap <= 0, 0)) slow(false);
}
static __attribute__((noinline)) void global_access() {
  if (!cur || !cur->in_lib || W->plan->explicit_mode || W->boost <= 0) return;
  if ((long)W->sched.below(100) < W->boost && multi()) slow(true);
}
void yield_point() {
  if (!cur || !cur->in_lib) return;
  count();
  global_access();
}
void run_tasks(const std::vector<Task *> &ts) {
  Task *oldcur = cur;
  S.group = ts;
  Task *n = ts.empty() ? nullptr : ts[0];
  W->consecutive = 0;
  while (n) {
    load_proc(n->p);
    sim_stdout = n->p->out;
    sim_stderr = n->p->err;
    cur = n;
    W->consecutive = 0;
    arm(n);
    set_gap(n);
    S.next_hint = -1;
    __sanitizer_start_switch_fiber(&main_fake, n->stack, STACK);
    sim_ctx_switch(&main_sp, n->sp);
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
    gap = gap_set = CAP;
    if (W->viol.set) break;
    Task *last = cur;
    Task *nx = nullptr;
    if (S.next_hint >= 0) {
      for (Task *x : S.group) if (x->id == S.next_hint && runnable(x)) nx = x;
    }
    if (!nx) {
      nx = choose(last, true);
      if (!nx && runnable(last)) nx = last;
    }
    if (!nx) {
      for (Task *x : S.group)
        if (!x->done && !x->dead && x->blocked) {
          cur = x;
          fail("deadlock", "every task waits for a lock");
          break;
        }
    }
    n = nx;
  }
  cur = oldcur;
  S.group.clear();
  for (Task *t : ts) {
    W->st.yields += t->yields;
    if (t->stack) {
      stack_pool.push_back({t->stack, t->aux});
      t->stack = t->aux = nullptr;
    }
    if (t->thread >= 0 && t->done && t->p->alive) t->p->thread_tls[t->thread].swap(t->tls);
    for (auto &v : t->tls) free(v.second.first);
    t->tls.clear();
  }
  gap = gap_set = CAP;
}
void proc_exit(int code, const char *why) {
  Proc *p = cur->p;
  p->alive = false;
  p->exited = true;
  p->code = code & 0xff;
  p->why = why;
  p->exit_item = cur->item ? cur->item->id : -1;
  p->exit_fired = cur->fired;
  for (Task *t : p->tasks) t->dead = true;
  note(fmt("exit proc %d code %d", p->id, p->code));
  cur->yields += gap_set - gap;
  gap = gap_set = 1;
  to_main(true);
  abort();
}
// A task waits until `pred`-like lock is released: used by the lock hooks.
void block_on(const void *m) {
  cur->blocked = m;
  cur->yields += gap_set - gap;
  gap = gap_set = 1;
  S.next_hint = -1;
  if (cur->aux_busy) to_main(false);
  else on_aux([] { to_main(false); });
}
void wake(Proc *p, const void *m) {
  for (Task *t : p->tasks)
    if (t->blocked == m) t->blocked = nullptr;
}
void set_crash(u64 after) {
  cur->yields += gap_set - gap;
  gap = gap_set = 1;
  tx[cur].crash_at = cur->yields + after;
  set_gap(cur);
}
u64 now_yields() { return cur->yields + (u64)(gap_set - gap); }

void on_aux_impl(void (*f)(void *), void *arg) {
  if (!cur || cur->aux_busy) { f(arg); return; }
  Task *t = cur;
  t->aux_busy = true;
  sim_call_on(f, arg, t->aux + AUX - 64);
  t->aux_busy = false;
}

// ------------------------------------------------------------ library calls
static bool secret_variants(const Bytes &s, std::vector<Bytes> &out) {
  out.push_back(s);
  Bytes a = s, b = s;
  for (auto &c : a) c ^= 0x36;
  for (auto &c : b) c ^= 0x5c;
  out.push_back(a);
  out.push_back(b);
  return true;
}
static const size_t WIN = 24;
static bool find_secret(const u8 *p, size_t n, const std::vector<Bytes> &secrets, size_t &where, std::string &what) {
  // index of all windows' first 8 bytes, checked at every offset
  if (n < 16) return false;
  for (const Bytes &raw : secrets) {
    std::vector<Bytes> vs;
    secret_variants(raw, vs);
    for (int v = 0; v < 3; v++) {
      const Bytes &s = vs[v];
      size_t win = std::min(WIN, s.size());
      if (win < 16) continue;
      // every window of `win` bytes of s contains one of the aligned-at-8 anchors
      for (size_t a = 0; a + 8 <= s.size(); a += 8) {
        const u8 *q = p, *e = p + n;
        while ((q = (const u8 *)memmem(q, e - q, s.data() + a, 8))) {
          size_t l = 0, r = 8;
          while (l < a && q - l > p && q[-(long)l - 1] == (u8)s[a - l - 1]) l++;
          while (a + r < s.size() && q + r < e && q[r] == (u8)s[a + r]) r++;
          bool seen[256] = {};
          int distinct = 0;
          for (size_t i = 0; l + r >= win && i < l + r; i++) {
            bool &x = seen[(u8)q[i - l]];
            distinct += !x;
            x = true;
          }
          if (l + r >= win && distinct >= 8) {
            where = q - l - p;
            what = fmt("%zu bytes of a secret%s: %s", l + r, v == 0 ? "" : v == 1 ? " (xor 36)" : " (xor 5c)",
                       hexs(Bytes((const char *)q - l, l + r), 16).c_str());
            return true;
          }
          q++;
        }
      }
    }
  }
  return false;
}
void scan_free(const void *p, size_t n) {
  if (!cur || cur->secrets.empty()) return;
  size_t w;
  std::string what;
  if (find_secret((const u8 *)p, n, cur->secrets, w, what)) cur->leftovers.push_back("freed heap block: " + what);
}
static void scan_stack(u8 *top) {
  if (cur->secrets.empty()) return;
  // skip what was never touched
  u8 *lo = cur->stack, *painted = top - 512;
  size_t n = painted - lo, off = 0;
  while (off + 4096 <= n && memcmp(lo + off, paint_pat().data() + off, 4096) == 0) off += 4096;
  lo += off;
  size_t w;
  std::string what;
  if (find_secret(lo, top - lo, cur->secrets, w, what))
    cur->leftovers.push_back(fmt("dead stack memory: %s", what.c_str()));
}
u64 g_call_serial;
__attribute__((noinline)) void lib_call_impl(void (*f)(void *), void *arg) {
  u8 *sp;
  int e = errno;
  asm volatile("movq %%rsp, %0" : "=r"(sp));
  on_aux([&] {
    W->st.calls++;
    cur->call = ++W->serial;
    cur->call_sys = 0;
    size_t depth = cur->secrets.empty() ? 24 << 10 : STACK;
    u8 *top = sp - 512;
    size_t n = std::min<size_t>(depth, top - cur->stack);
    // a library frame may not be live here: this is the outermost call
    poison_fill(top - n, n);
    cur->call_yield0 = now_yields();
  });
  errno = e;
  sim_clear_below();
  cur->in_lib = true;
  f(arg);
  cur->in_lib = false;
  on_aux([&] { scan_stack(sp); });
}

void begin_item(const Item &it) {
  cur->item = &it;
  for (auto i = cur->ord.begin(); i != cur->ord.end();)
    if (i->first.compare(0, 2, "lk") != 0) i = cur->ord.erase(i);
    else ++i;
  cur->fired.clear();
  cur->nofault = false;
  cur->secrets.clear();
  cur->leftovers.clear();
  cur->draw_off = 0;
  note(fmt("item %d %s", it.id, it.kind.c_str()));
}

// ------------------------------------------------------------ world
void engine_init() {
  raw_save(pristine_data, __start_fl_data, __stop_fl_data);
  raw_save(pristine_bss, __start_fl_bss, __stop_fl_bss);
  u64 a = (u64)__start_fl_data, b = (u64)__stop_fl_data, c = (u64)__start_fl_bss, d = (u64)__stop_fl_bss;
  if (!a || a == b) a = c, b = d;
  if (!c || c == d) c = a, d = b;
  lib_lo = std::min(a, c);
  lib_hi = std::max(b, d);
}
void world_begin(Plan &p) {
  W = new World;
  W->plan = &p;
  W->sched = Rng(hmix(p.seed, 0x5ced));
  W->mean_gap = p.k("gap");
  W->boost = (int)p.k("boost");
  W->paint = (int)p.k("paint");
  for (auto &kv : p.knob)
    if (kv.first.compare(0, 2, "r_") == 0) W->rates[kv.first.substr(2)] = kv.second / 1e6;
  if (p.k("ylimit")) W->yield_limit = p.k("ylimit");
  if (p.explicit_mode) {
    for (auto &f : p.faults) W->xf[{f.item, f.kind}][f.ord] = f.param;
    for (auto &s : p.switches) {
      W->xs[{s.task, s.ord}] = s.next;
      if (!(s.ord & 1)) W->xsord[s.task].push_back(s.ord / 2);
    }
    for (auto &v : W->xsord) std::sort(v.second.begin(), v.second.end());
  }
  cur = nullptr;
  curp = nullptr;
  threads_begin();
  load_proc(nullptr);
  if (!pristine_data.empty()) raw_copy(__start_fl_data, pristine_data.data(), pristine_data.size());
  if (!pristine_bss.empty()) raw_copy(__start_fl_bss, pristine_bss.data(), pristine_bss.size());
}
void world_end() {
  tracing = 0;
  for (Proc *p : W->procs) free_proc(p);
  for (void *b : W->scratch) free(b);
  for (Proc *p : W->procs) delete p;
  for (Task *t : W->tasks) {
    if (t->stack) stack_pool.push_back({t->stack, t->aux});
    for (auto &v : t->tls) free(v.second.first);
    delete t;
  }
  tx.clear();
  delete W;
  W = nullptr;
  curp = nullptr;
}

// ------------------------------------------------------------------ traces
int tracing;
u64 trace_addr(const void *a) {
  const u8 *p = (const u8 *)a;
  auto &b = cur->trace->blk;
  auto i = b.upper_bound(p);
  if (i == b.begin()) return (u64)a;
  --i;
  if (p >= i->first + i->second.first) return (u64)a;
  return (1ull << 60) + (i->second.second << 32) + (u64)(p - i->first);
}
__attribute__((noinline)) void trace_event(int type, u64 v, void *pc) {
  if (!cur || !cur->trace || !cur->in_lib) return;
  Trace &t = *cur->trace;
  if (type == 1) v = trace_addr((void *)v);
  if (t.ev.size() < 4000000) t.ev.push_back({hmix(v, (u64)type), pc});
}

// ------------------------------------------------- instrumentation callbacks
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(u32 *start, u32 *stop) {
  if (start == stop || *start) return;
  for (u32 *x = start; x < stop; x++) *x = ++cov_n;
}
void __sanitizer_cov_trace_pc_guard(u32 *guard) {
  u32 g = *guard;
  if (cov_map && !cov_map[g]) { cov_map[g] = 1; cov_hit++; }
  if (__builtin_expect(tracing, 0)) trace_event(0, g, __builtin_return_address(0));
  count();
}
#define ACCESS(name)                                                              \
  void name(void *a) {                                                            \
    if (__builtin_expect(tracing, 0)) trace_event(1, (u64)a, __builtin_return_address(0)); \
    count();                                                                      \
    if (__builtin_expect((u64)a - lib_lo < lib_hi - lib_lo, 0)) global_access();  \
  }
ACCESS(__sanitizer_cov_load1)
ACCESS(__sanitizer_cov_load2)
ACCESS(__sanitizer_cov_load4)
ACCESS(__sanitizer_cov_load8)
ACCESS(__sanitizer_cov_load16)
ACCESS(__sanitizer_cov_store1)
ACCESS(__sanitizer_cov_store2)
ACCESS(__sanitizer_cov_store4)
ACCESS(__sanitizer_cov_store8)
ACCESS(__sanitizer_cov_store16)
}

// ------------------------------------------------------------------- plans
std::string Plan::save() const {
  std::string s = "sim-replay 1\n";
  s += "prop " + prop + "\nvariant " + variant + fmt("\nseed %llu\n", (unsigned long long)seed);
  for (auto &kv : knob) s += fmt("knob %s %ld\n", kv.first.c_str(), kv.second);
  for (auto &i : items)
    s += fmt("item %d %d %d %s %llu %ld\n", i.id, i.lane, i.epoch, i.kind.c_str(), (unsigned long long)i.seed, i.size);
  if (explicit_mode) {
    s += "explicit\n";
    for (auto &f : faults)
      s += fmt("fault %d %s %llu %llu\n", f.item, f.kind.c_str(), (unsigned long long)f.ord, (unsigned long long)f.param);
    for (auto &w : switches) s += fmt("switch %d %llu %d\n", w.task, (unsigned long long)w.ord, w.next);
  }
  return s;
}
bool Plan::load(const std::string &text, std::string &err) {
  size_t i = 0;
  while (i < text.size()) {
    size_t e = text.find('\n', i);
    if (e == std::string::npos) e = text.size();
    std::string l = text.substr(i, e - i);
    i = e + 1;
    if (l.empty() || l[0] == '#') continue;
    char a[256], b[256];
    unsigned long long x, y;
    long n;
    int p, q, r;
    if (sscanf(l.c_str(), "prop %255s", a) == 1) prop = a;
    else if (sscanf(l.c_str(), "variant %255s", a) == 1) variant = a;
    else if (sscanf(l.c_str(), "seed %llu", &x) == 1) seed = x;
    else if (sscanf(l.c_str(), "knob %255s %ld", a, &n) == 2) knob[a] = n;
    else if (sscanf(l.c_str(), "item %d %d %d %255s %llu %ld", &p, &q, &r, b, &x, &n) == 6) {
      Item it;
      it.id = p; it.lane = q; it.epoch = r; it.kind = b; it.seed = x; it.size = n;
      items.push_back(it);
    } else if (l == "explicit") explicit_mode = true;
    else if (sscanf(l.c_str(), "fault %d %255s %llu %llu", &p, a, &x, &y) == 4) faults.push_back({p, a, x, y});
    else if (sscanf(l.c_str(), "switch %d %llu %d", &p, &x, &q) == 3) switches.push_back({p, x, q});
    else if (l.compare(0, 10, "sim-replay") == 0 || l.compare(0, 9, "violation") == 0 || l.compare(0, 6, "detail") == 0 || l.compare(0, 4, "hash") == 0) continue;
    else { err = "bad line: " + l; return false; }
  }
  return true;
}
